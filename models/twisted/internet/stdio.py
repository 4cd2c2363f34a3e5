connected = []


class StandardIO(object):
    def __init__(self, proto, stdin=0, stdout=1, reactor=None):
        connected.append(proto)
        self.protocol = proto
