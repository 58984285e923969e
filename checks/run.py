"""
Entry point of every check: run.py CNN [--quick|--thorough] [--replay FILE]

Re-executes itself with a fixed environment: the venv siotls is installed in,
no bytecode written anywhere, and an OpenSSL configuration which enables every
TLS 1.3 suite and group for the standard library's ssl module.
"""
import os
import pathlib
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PYTHON = '/opt/venv/bin/python'


def main():
    if os.environ.get('SIOTLS_VERIF_STAGE') != '2':
        sys.path.insert(0, str(VERIF))
        conf = VERIF / 'lib' / 'openssl.cnf'
        env = dict(os.environ, SIOTLS_VERIF_STAGE='2', OPENSSL_CONF=str(conf),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONUNBUFFERED='1',
                   PYTHONWARNINGS='ignore')
        for k in ('PYTHONPATH', 'SSLKEYLOGFILE'):
            env.pop(k, None)
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(exe, [exe, '-B', __file__, *sys.argv[1:]], env)
    sys.path.insert(0, str(VERIF))
    src = os.environ.get('SIOTLS_SRC', '/repo/src')
    sys.path.insert(0, src)
    if sys.argv[1:2] == ['C15']:
        sys.path.insert(0, str(VERIF))
        import lib.aeadspy      # noqa: F401  has to be there before siotls
    import siotls
    if not siotls.__file__.startswith(src):
        print('siotls imported from', siotls.__file__, file=sys.stderr)
        return 2
    with tempfile.TemporaryDirectory(prefix='siotls-verif-') as scratch:
        os.environ['SIOTLS_SCRATCH'] = scratch
        argv = [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[1:]]
        os.chdir(scratch)
        from lib import harness
        return harness.main(argv)


if __name__ == '__main__':
    sys.exit(main())
