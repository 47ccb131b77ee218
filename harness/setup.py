"""Setup: nothing is built (Python and TLC read the sources); checks that
the specification parses and that the code under test can be imported."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


def main():
    os.makedirs(os.path.join(os.path.dirname(HERE), 'evidence'),
                exist_ok=True)
    mods = sorted(os.path.basename(p) for p in glob.glob(
        os.path.join(SPEC, '*.tla')))
    r = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY'] + mods,
                       cwd=SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        return 1
    r = subprocess.run([sys.executable, '-B', '-c',
                        'import anticipy.forecast'], cwd='/repo')
    print('setup: %d modules parsed' % len(mods))
    return r.returncode


sys.exit(main())
