"""development helper: python3 seeded_tool.py verify ID...  -- confirms planted bugs in a scratch copy"""
import json, os, subprocess, sys, shutil
S = '/tmp/seedwork'
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
def main():
    base = json.load(open('/opt/vp/BASELINE.json'))
    for i in sys.argv[2:]:
        d = '/verif/seeded/' + i
        shutil.rmtree(S, ignore_errors=True)
        sh('cp -a /repo ' + S)
        r = sh('git apply --check %s/patch.diff' % d, S)
        env = dict(os.environ, PYTHONPATH=S, PYTHONDONTWRITEBYTECODE='1')
        a = sh('bash %s/demo.sh' % d, S, env)
        sh('git apply %s/patch.diff' % d, S)
        b = sh('bash %s/demo.sh' % d, S, env)
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --deselect "asn1PERser/test/per/decoder/test_per_decode_sequence_of.py::test_no_constrains_sequence_of_integer_can_be_decoded[schema0-00-value0]" --ignore=asn1PERser/test/parsing asn1PERser 2>&1 | tail -3' if True else 'true', S, env)
        print(i, 'apply', r.returncode, 'demo clean', a.returncode, 'demo patched', b.returncode, '|', (b.stdout + b.stderr).strip()[-150:].replace('\n', ' '), '| tests:', t.stdout.strip()[-200:].replace('\n', ' '))
        shutil.rmtree(S, ignore_errors=True)
main()
