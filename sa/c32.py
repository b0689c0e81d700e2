"""The optional marker does not weaken a rule whose specification matches."""
import c31
from core import *


def check(rep):
    c31.run(rep, "?~")
    rep.rule = c31.RULE
    return "As C31, with the specification of each rule marked optional (`?~`)."


ASSUME = c31.ASSUME
