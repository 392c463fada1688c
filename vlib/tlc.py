"""run TLC on a module of /verif/spec with a generated configuration"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


class TlcViolation(Exception):
    def __init__(self, module, text):
        Exception.__init__(self, 'invariant of ' + module + ' violated on the model')
        self.text = text


class Result(object):
    def __init__(self):
        self.lines = {}  # prefix -> list of decoded json
        self.states = 0
        self.distinct = 0
        self.wall = 0.0
        self.coverage = []


def run(module, cfg, data=None, timeout=600, workers=4, extra=(), mem='4g', simulate=None):
    """cfg: text of the configuration. data: python object, handed over as JSON file in VERIF_DATA"""
    work = tempfile.mkdtemp(prefix='verif_tlc_')
    try:
        cfg_path = os.path.join(work, module + '.cfg')
        with open(cfg_path, 'w') as f:
            f.write(cfg)
        env = dict(os.environ)
        env.pop('JAVA_TOOL_OPTIONS', None)
        if data is not None:
            path = os.path.join(work, 'data.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(data, f, ensure_ascii=False)
            env['VERIF_DATA'] = path
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss512m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-Djava.io.tmpdir=' + work,
               '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-config', cfg_path, '-metadir',
               os.path.join(work, 'meta'), '-workers', str(workers), '-deadlock', '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate'] + ([simulate] if isinstance(simulate, str) else [])
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + '.tla')]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        res = Result()
        res.wall = time.time() - t0
        rest = []
        for line in out.splitlines():
            if line.startswith('"@'):
                try:
                    s = json.loads(line)
                except ValueError:
                    raise TlcError('unreadable line of ' + module + ': ' + line[:400])
                tag, _, body = s.partition(' ')
                res.lines.setdefault(tag[1:], []).append(json.loads(body))
            else:
                rest.append(line)
        text = '\n'.join(rest)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        if m:
            res.states, res.distinct = int(m.group(1)), int(m.group(2))
        if p.returncode != 0:
            if 'Invariant' in text and 'is violated' in text:
                raise TlcViolation(module, text[-6000:])
            raise TlcError(('evaluating ' if p.returncode in (75, 76, 77) else '') + module + ' exit ' + str(p.returncode) + '\n' + '\n'.join(l for l in rest if not re.match('Parsing|Semantic|Linting|Comput|Residual|TLC2|Running|\\s*$', l))[-2500:])
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
