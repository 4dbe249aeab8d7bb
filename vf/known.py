"""Known findings (see /verif/KNOWN_FINDINGS.txt): matched by the specific input."""
from . import spec


def oracle_latin1(pid, case, msg):
    """C11: named_oracle in-style, bytes query, a name whose upper-case form is
    not Latin-1 (the generated out-name cannot be encoded)."""
    cfg = case.get("cfg")
    if pid != "C11" or cfg is None or cfg.ins != "named_oracle" or cfg.ko != "named":
        return False
    sql = case.get("sql")
    if not isinstance(sql, bytes) or "UnicodeEncodeError" not in msg:
        return False
    for s in spec.scan(cfg, spec.strip(cfg, sql.decode("latin1"))):
        if s[0] == "par" and not s[2]:
            try:
                s[1].upper().encode("latin1")
            except UnicodeEncodeError:
                return True
    return False


FINDINGS = {"C11-oracle-upper-latin1": oracle_latin1}


def match(pid, case, msg):
    for k, f in FINDINGS.items():
        if f(pid, case, msg):
            return k
    return None


TEXT = {"C11-oracle-upper-latin1": "in-style named_oracle, named out-style, bytes query with an unquoted name whose upper-case form is not "
                                   "Latin-1 (e.g. b':\\xff'): format()/formatmany() raise UnicodeEncodeError"}
