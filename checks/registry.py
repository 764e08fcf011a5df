import importlib


def _l(mod, fn):
    return lambda c: getattr(importlib.import_module(mod), fn)(c)


CHECKS = {
    "M01": _l("mutex", "m01"),
    "M02": _l("mutex", "m02"),
    "S01": _l("shmutex", "s01"),
    "S02": _l("shmutex", "s02"),
    "C01": _l("cv", "c01"),
    "C02": _l("cv", "c02"),
    "C03": _l("cv", "c03"),
    "L01": _l("locks", "l01"),
    "L02": _l("mlock", "l02"),
    "O01": _l("once", "o01"),
    "B01": _l("sync", "b01"),
    "B02": _l("sync", "b02"),
    "T01": _l("thread", "t01"),
    "T02": _l("thread", "t02"),
    "T03": _l("thread", "t03"),
    "T04": _l("thread", "t04"),
    "T05": _l("thread", "t05"),
    "T06": _l("thread", "t06"),
    "N01": _l("thread", "n01"),
    "F01": _l("fut", "f01"),
    "F02": _l("fut", "f02"),
    "F03": _l("fut", "f03"),
    "F04": _l("fut", "f04"),
    "F05": _l("fut", "f05"),
    "F06": _l("fut", "f06"),
    "F07": _l("fut", "f07"),
    "F08": _l("wcb", "f08"),
    "Q01": _l("queues", "q01"),
    "Q02": _l("queues", "q02"),
    "Q03": _l("queues", "q03"),
    "Q04": _l("queues", "q04"),
    "P01": _l("sval", "p01"),
    "R01": _l("region", "r01"),
    "E01": _l("execs", "e01"),
    "E02": _l("execs", "e02"),
    "E03": _l("execs", "e03"),
}
