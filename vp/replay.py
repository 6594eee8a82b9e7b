'''Replay a violation on the real code: python3-vt -m vp.replay <file>'''
import json
import sys

from . import concrete as K, oracles as O


def main(path):
    rec = json.load(open(path))
    K.init()
    if rec.get('kind') == 'contract':
        bad, o = K.replay_contract(rec)
        print('observed:', o)
        print('failed clauses:', bad)
        return 1 if bad else 0
    if rec.get('kind') == 'oracle':
        msg = O.ORACLES[rec['property']][rec['oracle']].check(rec['case'])
        print(msg)
        return 1 if msg else 0
    print(json.dumps(rec, indent=1))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
