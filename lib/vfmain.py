import sys

import vf

sys.exit(vf.main(sys.argv))
