class SynchronousTestCase(object):
    def failUnlessWarns(self, category, message, filename, f, *args, **kwargs):
        return f(*args, **kwargs)

    assertWarns = failUnlessWarns


class TestCase(SynchronousTestCase):
    pass
