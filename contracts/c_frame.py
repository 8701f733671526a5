"""C08: connections are separate.

What one connection can reach and another can too is the control, the identity provider and the TLS context, which are there to be
shared, and state of the modules, which no function writes (the frame obligation that dv/frame.py adds to every unit).  So whatever a
function under contract does to its connection (each contract says what that is), another connection is as it was."""
import enum
import types

from dv import frame
from dv.core import unit
from dv.spec import symbolic
from dv.sym import SByteArray, Symbolic

STOP = (int, float, str, bytes, bool, type(None), types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, enum.Enum)


class Some:
    def __init__(self, name):
        self.name = name


def reach(x):
    """The mutable objects that can be reached from x"""
    out, todo = {}, [x]
    while todo:
        x = todo.pop()
        if isinstance(x, STOP) or id(x) in out:
            continue
        if isinstance(x, types.MethodType):
            todo.append(x.__self__)
            continue
        if isinstance(x, dict):
            out[id(x)] = x
            todo += list(x) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            if not isinstance(x, (tuple, frozenset)):
                out[id(x)] = x
            todo += list(x)
        elif isinstance(x, (bytearray, SByteArray)):
            out[id(x)] = x
            continue
        elif isinstance(x, Symbolic):
            continue
        elif hasattr(x, "__dict__"):
            out[id(x)] = x
            todo += list(vars(x).values())
        for c in type(x).__mro__:
            for s in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
                if hasattr(x, s):
                    todo.append(getattr(x, s))
    return out


def modules(v):
    for name in ("server", "session", "connection", "stream", "variables", "auth", "control", "prepared", "results", "schema", "intercept"):
        v.mod(name)
    if symbolic():
        from dv import shadow
        return frame.Frame(shadow.SHADOW)
    import sys
    return frame.Frame({k: m for k, m in sys.modules.items() if k.startswith("mysql_mimic")})


@unit("C08", "connection.Connection.__init__ session.Session.__init__ session.Session.init stream.MysqlStream.__init__ "
      "variables.SessionVariables.__init__ variables.GlobalVariables.__init__ utils.seq.__init__", internal=True)
def separate(v):
    """Two connections of a server share what they're meant to share, and otherwise only what no function writes"""
    from dv.spec import run
    K, S, M = v.mod("connection").Connection, v.mod("session").Session, v.mod("stream").MysqlStream
    shared = [v.mod("control").LocalControl(1), v.mod("auth").SimpleIdentityProvider(), Some("ssl")]
    kinds = v.mod("types").Capabilities
    conns = []
    for i in range(2):
        s = S()
        c = K(stream=M(Some(f"reader {i}"), Some(f"writer {i}")), session=s, control=shared[0], identity_provider=shared[1], ssl=shared[2],
              server_capabilities=kinds(0))
        run(s.init(c))
        ps = v.mod("prepared").PreparedStatement(stmt_id=0, sql="SELECT 1", num_params=0)
        c.prepared_stmts[0] = ps
        conns.append(c)
    first, second = reach(conns[0]), reach(conns[1])
    allowed = set()
    for x in shared:
        allowed |= set(reach(x))
    allowed |= set(modules(v).seen)
    both = [first[k] for k in first if k in second and k not in allowed]
    v.check("connections share nothing else", not both, lambda: ", ".join(type(x).__name__ + repr(x)[:80] for x in both))
    v.check("a connection is part of what it can reach", id(conns[0]) in first and id(conns[1]) not in first)
    a, b = conns[0].session.variables, conns[1].session.variables
    a.set("sql_mode", "changed")
    v.check("variables aren't shared", b.get("sql_mode") != "changed" and S().variables.get("sql_mode") != "changed")
