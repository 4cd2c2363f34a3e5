"""C41: certificates carry the subject and serial number requested."""
import os
import sys
from verif import sym_str, sym_int, choose, expect, expect_eq, cover
from twisted.internet import ssl
from epsilon.scripts import certcreate

COVER = ('created', 'quiet', 'printed', 'usage error', 'bad serial', 'command line', 'default', 'replaced')
FIELDS = (('country', 'C', 'countryName', 'US'), ('state', 's', 'stateOrProvinceName', 'New York'),
          ('city', 'c', 'localityName', 'New York'), ('organization', 'o', 'organizationName', 'Divmod LLC'),
          ('unit', 'u', 'organizationalUnitName', 'Security'), ('hostname', 'h', 'commonName', 'divmod.com'),
          ('email', 'e', 'emailAddress', 'support@divmod.org'))


def created(cert, want, serial, filename):
    expect(len(ssl.generated) == 1, 'one new key pair')
    expect(isinstance(cert, ssl.PrivateCertificate) and cert.privateKey is ssl.generated[0], 'a certificate of the new key')
    for k in want:
        expect(k in cert.subject, 'the subject has ' + k)
        expect_eq(cert.subject[k], want[k], 'subject: ' + k)
    expect_eq(sorted(cert.subject), sorted(want), 'and nothing else')
    expect_eq(cert.serial, serial, 'serial number')
    expect_eq(os.fs.get(os.path.abspath(filename)), ('file', cert.dumpPEM()), 'certificate and key are in the requested file')
    expect(('file closed', os.path.abspath(filename)) in os.events, 'which is complete')
    cover('created')


def files():
    return sorted(p for p in os.fs if os.fs[p][0] == 'file')


def printed(quiet):
    out = ''.join(sys.stdout.written)
    if quiet:
        expect_eq(out, '', 'nothing is printed')
        cover('quiet')
    else:
        expect(out != '', 'the certificate is described')
        cover('printed')


def check_direct():
    """createSSLCertificate with any options"""
    opts, want = {}, {}
    for long, short, name, default in FIELDS:
        opts[long] = want[name] = sym_str(long)
    serial = sym_int('serial', 0)
    opts['serial-number'] = serial if choose(2, 'as number') else '%d' % serial
    opts['filename'] = choose(('server.pem', '/work/other', 'x y'), 'filename')
    quiet = opts['quiet'] = choose((0, 1), 'quiet')
    if choose(2, 'existing'):
        os.fs[os.path.abspath(opts['filename'])] = ('file', b'an old and longer certificate with its key')
        cover('replaced')
    before = dict(opts)
    cert = certcreate.createSSLCertificate(opts)
    created(cert, want, serial, opts['filename'])
    printed(quiet)
    expect(opts == before, 'the options are left alone')


def check_command():
    """any one or two of the options on the command line, in any form"""
    want = {name: default for (_, _, name, default) in FIELDS}
    serial, filename, quiet = 1, 'server.pem', False
    args = []
    for i in range(2):
        f = choose(FIELDS + ('serial', 'file', 'quiet', None), 'option %d' % i)
        if f is None:
            cover('default')
            continue
        form = choose(('long', 'short') if f in ('serial', 'file', 'quiet') else ('long', 'long=', 'short'), 'form %d' % i)
        if f == 'quiet':
            args.append('--quiet' if form == 'long' else '-q')
            quiet = True
            continue
        if f == 'serial':
            long, short = 'serial-number', 'S'
            serial = sym_int('serial %d' % i, 0)
            value = '%d' % serial
        elif f == 'file':
            long, short = 'filename', 'f'
            value = filename = '/work/cert%d' % i
        else:
            long, short, name, _ = f
            value = want[name] = sym_str('%s %d' % (long, i))
        if form == 'long=':
            args.append('--' + long + '=' + value)
        else:
            args.extend(['--' + long if form == 'long' else '-' + short, value])
    if choose(2, 'from sys.argv'):
        sys.argv[:] = ['certcreate'] + args
        cert = certcreate.main()
    else:
        cert = certcreate.main(args)
    created(cert, want, serial, filename)
    expect_eq(files(), [os.path.abspath(filename)], 'no other file')
    printed(quiet)
    cover('command line')


def check_usage():
    """an error in the options creates nothing"""
    os.fs['/work/server.pem'] = ('file', b'precious')
    args = choose((['--colour', 'red'], ['-z'], ['--country'], ['extra'], ['-q', 'extra'], ['--quiet=1'], ['-f']), 'arguments')
    try:
        certcreate.main(list(args))
    except SystemExit as e:
        expect(bool(e.args) and e.args[0] not in (0, None, ''), 'it says what is wrong')
        cover('usage error')
    else:
        expect(False, 'refused')
    expect_eq(files(), ['/work/server.pem'], 'no file is created')
    expect_eq(os.fs['/work/server.pem'][1], b'precious', 'nor changed')


def check_bad_serial():
    os.fs['/work/server.pem'] = ('file', b'precious')
    try:
        certcreate.main(['-S', choose(('', 'x', '1.5', '0x'), 'serial')])
    except (ValueError, SystemExit):
        cover('bad serial')
    else:
        expect(False, 'refused')
    expect_eq(files(), ['/work/server.pem'], 'no file is created')
    expect_eq(os.fs['/work/server.pem'][1], b'precious', 'nor changed')
