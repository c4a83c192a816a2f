import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from deccheck import decoder_check

main("C08", lambda c: decoder_check(c, ["ctrans", "ref", "ver", "prefix"], "DecoderMCGuided.cfg", ["trans", "sug"]))
