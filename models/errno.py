EPERM, ENOENT, EINTR, EIO, EAGAIN, EACCES, EEXIST, ENOTDIR, EISDIR, EINVAL, ENOSPC, EPIPE, ENOTEMPTY, ELOOP, EBADF = (
    1, 2, 4, 5, 11, 13, 17, 20, 21, 22, 28, 32, 39, 40, 9)
EWOULDBLOCK = EAGAIN
errorcode = {1: 'EPERM', 2: 'ENOENT', 4: 'EINTR', 5: 'EIO', 9: 'EBADF', 11: 'EAGAIN', 13: 'EACCES', 17: 'EEXIST', 20: 'ENOTDIR',
             21: 'EISDIR', 22: 'EINVAL', 28: 'ENOSPC', 32: 'EPIPE', 39: 'ENOTEMPTY', 40: 'ELOOP'}
