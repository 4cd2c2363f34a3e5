"""The body of an asynchronous loopback connection; `bodies` lists its calls, `results` what they give."""
bodies = []
results = []


def _loopbackAsyncBody(server, serverToClient, client, clientToServer):
    bodies.append((server, serverToClient, client, clientToServer))
    r = results.pop(0)
    if isinstance(r, Exception):
        raise r
    return r


def _loopbackAsyncContinue(ignored, server, serverToClient, client, clientToServer):
    return _loopbackAsyncBody(server, serverToClient, client, clientToServer)
