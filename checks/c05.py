"""C05: host features and thresholds never leave the host."""
from vgg.check import *
from checks import c04
TECH = "information-flow (taint) analysis on a points-to heap over the call graph, from features, bins and thresholds to socket sends"


def run(rep):
    c04.decide(rep, "host", "guest")
