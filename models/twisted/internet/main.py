from twisted.internet import error
CONNECTION_LOST = error.ConnectionLost('Connection lost')
CONNECTION_DONE = error.ConnectionDone('Connection done')
