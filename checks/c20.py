"""C20: CSV reading keeps columns and rows aligned."""
from vgg.check import *
from vgg.rtypes import *


def run(rep):
    rep.rule("value-graph equality of the two readers with the row-by-row definition in specs/s_io.py")
    P = program()
    install()
    a = sym("csv_address", "str")
    rep.equal("guest file", P, "i_o.utils.read_from_csv_with_lable", "s_io.read_guest", [a])
    rep.equal("host file", P, "i_o.utils.read_from_csv_with_no_lable", "s_io.read_host", [a])
