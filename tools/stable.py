"""Compare a test.sh result with the baseline: prints the stable tests that did not pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(sys.argv[1]))
miss = sorted(set(b['stable']) - set(t['passed']))
print('stable failing:', len(miss)); print('\n'.join(miss[:20])); sys.exit(bool(miss))
