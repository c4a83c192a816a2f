import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from deccheck import decoder_check

main("C07", lambda c: decoder_check(c, ["trans", "trans", "sug"], "DecoderMCPlain.cfg", ["ctrans", "ref", "prefix"]))
