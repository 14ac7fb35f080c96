"""Development tool: nano.py DOMAIN - recorded histories first, then the replay, with the emitted transitions cached.
Prints the first deviations whatever property they belong to. Exit 1 on a deviation."""
import json, os, pickle, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..'), os.path.join(HERE, '..', 'domains')]
import core, specs, check
CACHE = os.environ.get('NANO_CACHE', '/tmp/mut/cache')


class Nano(check.Check):
    def report(self, name, dom, ops, got, exp, f, how):
        if any(k['domain'] == name and k['op'] == ops[-1] and k['r'] == got['r'] for k in self.known):
            return
        self.bad.append((ops, got, f))


def main(name):
    c = Nano('-')
    c.known = [k for p in specs.PROPERTIES for k in check.known_findings(p)]
    dom = specs.DOMAINS[name]
    conf = dict(dom['quick'])
    conf['n'] = int(os.environ.get('NANO_N', conf['n']))
    sc = core.Scratch()
    try:
        dc = {'op_kinds': {}}
        c.traces(name, dom, conf, dc, sc)
        if not c.bad:
            os.makedirs(CACHE, exist_ok=True)
            for k, consts in enumerate(conf.get('mc', [])):
                p = os.path.join(CACHE, '%s-%d.pickle' % (name, k))
                if not os.path.exists(p):
                    cfg = os.path.join(sc.sub('cfg'), 'm.cfg')
                    consts = dict(consts)
                    mod = consts.pop('module', dom['mc'])
                    core.make_cfg(mod + '.cfg', dict(consts, EmitOn='TRUE'), 'ACTION_CONSTRAINTS Emit', cfg)
                    rc, lines, gen, distinct, tail = core.run_tlc(mod, cfg, sc)
                    assert rc == 0, tail
                    pickle.dump(core.group_transitions(lines), open(p + str(os.getpid()), 'wb'))
                    os.rename(p + str(os.getpid()), p)
                jobs = pickle.load(open(p, 'rb'))
                for r in core.run_workers(name, jobs, sc):
                    if 'fail' in r or 'died' in r:
                        c.bad.append((r.get('fail', {}).get('ops'), r.get('fail', {}).get('got'), r.get('fail', {}).get('f')))
                if c.bad:
                    break
    finally:
        sc.close()
    for b in c.bad[:1]:
        print(json.dumps(b)[:600])
    return 1 if c.bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1]))
    except core.MachineryError as e:
        print('MACHINERY', str(e)[-500:])
        sys.exit(2)
