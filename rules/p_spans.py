"""M23: the spans of the syntax tree."""
from rules.p_parse import judge


def run(db, R):
    judge(db, R, True)
