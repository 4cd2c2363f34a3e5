import io


class StringTransport(object):
    disconnecting = False

    def __init__(self):
        self.io = io.BytesIO()

    def write(self, data):
        if not isinstance(data, bytes):
            raise TypeError('Data must be bytes')
        self.io.write(data)

    def value(self):
        return self.io.getvalue()

    def clear(self):
        self.io = io.BytesIO()
