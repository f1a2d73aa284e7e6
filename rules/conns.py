"""Connections: what they do with their channel, and when they let go of it."""
import re
import ir, absint, objs, errs, asyncs, par, futures, rpcs
from absint import Int, Ptr, Throw, Nested, NULL
from packets import fn1
from channels import fmt, norm, tell

W = "src/arpc/connection.h and connection.cpp"
SRC = r'''
#include "arpc/connection.h"
#include "arpc/connection.cpp"
#include "arpc/io_adapters.cpp"
#include "arpc/awaitable.cpp"
#include "arpc/select.h"
extern "C" {
void mark(int); void got(long); void gots(const std::string*); void on(int); void here(const char*); void incoming(int, int); void cancel_me(); void locked(); void given(const void*); void back(int);
long told(const char*);
}
struct X {};
using Ch = arpc::channel_connection;
static char B[16];
static Ch* C;
#define CH auto& c = *new Ch(arpc::channel(1)); C = &c;
#define TRY(x) try { x; } catch (const arpc::errors::io_error&) { mark(50); } catch (const arpc::errors::cancelled&) { mark(51); } catch (const arpc::errors::not_implemented&) { mark(52); } catch (const arpc::errors::eof&) { mark(53); } catch (const X&) { mark(54); }
// A connection to be made again and again.
struct Con : arpc::connection {
  int n;
  Con(int n, const char* s) : n(n) { here("made"); got(n); here(s); told("make"); }
  Con(const Con&) = delete;
  ~Con() { here("ended"); }
  void disconnect() override { here("disconnect"); told("disconnect"); }
  bool connected() override { return told("connected"); }
  void write(const char* d, std::size_t s) override { here("write"); given(d); got(s); told("write"); }
  void putc(char c) override { here("putc"); got(c); }
  void flush() override { here("flush"); }
  std::size_t read(char* d, std::size_t s) override { here("read"); given(d); got(s); return told("read"); }
  char getc() override { here("getc"); return told("getc"); }
  arpc::awaitable<void> data_available() override { return arpc::awaitable<void>(91).then([]() { told("available"); }); }
};
using Re = arpc::reconnectable_connection<Con>;
static Re* R;
#define RE auto& r = *new Re(7, "seven"); R = &r;
// Packets.
struct Raw {
  int n;
  Raw(int n, std::unique_ptr<int> p) : n(n) { here("made"); got(n); got(*p); }
  ~Raw() { here("ended"); }
  void connect() { here("connect"); told("connect"); }
  void disconnect() { here("disconnect"); }
  bool connected() { return told("connected"); }
  arpc::awaitable<void> data_available() { return arpc::awaitable<void>(91).then([]() { told("available"); }); }
};
struct Proto {
  void send(Raw& r, std::string s) { here("sends"); got(r.n); gots(&s); told("send"); }
  std::string receive(Raw& r) { here("receives"); got(r.n); told("receive"); return "in"; }
};
using Pk = arpc::packet_connection_impl<Raw, Proto>;
#define PK auto& p = *new Pk(7, std::make_unique<int>(3)); arpc::packet_connection& i = p;
template <typename A> void wait(A&& a) { auto [x] = arpc::select(std::forward<A>(a)); if (x) *x; }
'''
FLAGS = tuple(f for f in rpcs.FLAGS if not f.endswith(("/rpc", "/pool")))
FLAGS = ("-iquote%s/stub/conn" % ir.VERIF,) + FLAGS
POL = asyncs.POL
UP = 1
USES = ("$uses",)


def uses(st):
    return st.mem.get(USES, ())


def model(prog, steps=(), net=None):
    rest = rpcs.model(prog, steps, net)
    net = net or {}

    def turn(st, op):
        sc = net.get(op, [""])
        k = st.mem.get(("$script", op), 0)
        st.mem[("$script", op)] = k + 1
        return sc[min(k, len(sc) - 1)]

    def mo(ip, st, i, name, args):
        nm = re.sub(r" const$", "", name)
        say = lambda x: rpcs.say(st, x)
        if nm in ("chan_write", "chan_read"):
            op, p, n = nm[5:], args[1], args[2].value
            at = p.off if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "g" else 0
            say("%s%s @%s %s" % (op, fmt(args[0]), at, n))
            x = turn(st, op)
            if isinstance(x, str) and x:
                return True, Throw("_ZTIN4arpc6errors%d%sE" % (len(x), x))
            if isinstance(x, tuple):
                x = x[0]
                st.mem[("$ready",)] = {91: 0, 191: 0}
            return True, Int.const(64, n if x == "" else min(x, n))
        if nm == "chan_mode":
            return say("%sblocking%s" % ("non" if args[1].value else "", fmt(args[0])))
        if nm in ("chan_close", "chan_lost", "chan_flush", "dialled"):
            return say(nm.replace("chan_", "") + fmt(args[0]))
        if nm == "opened":
            return say("opened %s %s" % (rpcs.strof(objs.get(st, args[0])), fmt(args[1])))
        if nm == "use_begins":
            st.mem[USES] = uses(st) + ((args[0], st.mem.get(rpcs.CUR)),)
            return True, None
        if nm == "use_ends":
            l = list(uses(st))
            k = [j for j, u in enumerate(l) if u[0] == args[0]]
            mine = [j for j in k if l[j][1] == st.mem.get(rpcs.CUR)] or k
            if mine:
                del l[mine[-1]]
                st.mem[USES] = tuple(l)
            return True, None
        if nm == "use_drop":
            l = [u for u in uses(st) if u[0] == args[0]]
            st.mem[USES] = tuple(u for u in uses(st) if u[0] != args[0])
            if any(u[1] == st.mem.get(rpcs.CUR) for u in l):
                return say("(waits for itself)")
            return say("drop" + (" waits" if l else ""))
        if nm == "given":
            return say("@%s" % args[0].off)
        if nm == "told":
            op = objs.cstr_tok(ip, args[0])[1]
            x = turn(st, op)
            if isinstance(x, str) and x:
                return True, Throw("_ZTIN4arpc6errors%d%sE" % (len(x), x) if len(x) > 1 else "_ZTI1X")
            return True, Int.const(64, 0 if x == "" else x)
        if nm == "flag_set" and args[1].value < 2 and not (args[1].value and args[0] in st.mem.get(("$closing",), ())):
            st.mem[("$closing",)] = st.mem.get(("$closing",), ()) + (args[0],)
            say("closing" if args[1].value else "not closing")
        return rest(ip, st, i, name, args)
    return mo


STEP = 'extern "C" void back(int);'
CONN = {
    "made": ('{ Ch c(arpc::channel(1)); got(c.connected()); mark(1); } mark(2);', 'nonblocking1 1 #1 closing drop close1 #2'),
    "write": ("CH c.write(B, 9); mark(1);", 'nonblocking1 write1 @0 9 write1 @2 7 write1 @5 4 write1 @5 4 write1 @8 1 #1', {"write": [2, 3, "try_again", 3, 9]}),
    "writeall": ("CH c.write(B + 1, 9); c.write(B, 1); mark(1);", 'nonblocking1 write1 @1 9 write1 @0 1 #1'),
    "writenothing": ("CH c.write(B, 0); mark(1);", 'nonblocking1 #1'),
    "putc": ("CH c.putc('x'); mark(1);", 'nonblocking1 write1 @0 1 #1'),
    "writefails": ("CH TRY(c.write(B, 9)) TRY(c.write(B, 9)) c.disconnect();", 'nonblocking1 write1 @0 9 write1 @2 7 #50 write1 @0 9 closing drop close1', {"write": [2, "io_error", 9]}),
    "read": ("CH got(c.read(B, 9)); mark(1);", 'nonblocking1 read1 @0 9 read1 @2 7 read1 @5 4 read1 @5 4 read1 @8 1 9 #1', {"read": [2, 3, "try_again", 3, 9]}),
    "readall": ("CH got(c.read(B + 1, 9)); got(c.read(B, 1)); mark(1);", 'nonblocking1 read1 @1 9 9 read1 @0 1 1 #1'),
    "readnothing": ("CH got(c.read(B, 0)); mark(1);", 'nonblocking1 0 #1'),
    "eof": ("CH got(c.read(B, 9)); got(c.read(B, 3)); mark(1);", 'nonblocking1 read1 @0 9 read1 @2 7 read1 @5 4 5 read1 @0 3 0 #1', {"read": [2, 3, 0]}),
    "getc": ("CH c.getc(); mark(1); TRY(c.getc())", 'nonblocking1 read1 @0 1 #1 read1 @0 1 #53', {"read": [1, 0]}),
    "readfails": ("CH TRY(c.read(B, 9)) TRY(c.read(B, 9)) c.disconnect();", 'nonblocking1 read1 @0 9 read1 @2 7 #50 read1 @0 9 closing drop close1', {"read": [2, "io_error", 9]}),
    "closed": ("CH c.disconnect(); mark(1); got(c.connected()); TRY(c.write(B, 3)) TRY(c.read(B, 3)) TRY(c.write(B, 0)) TRY(c.putc(' ')) TRY(c.getc()) c.disconnect(); mark(2);", 'nonblocking1 closing drop close1 #1 0 #50 #50 #50 #50 #50 #2'),
    "closeswriter": (["CH TRY(c.write(B, 9)) mark(1);", "on(1); C->disconnect(); mark(2);"], 'nonblocking1 write1 @0 9 write1 @2 7 wait closing drop waits close1 #2 #50 #1', {"write": [2, (3,), "again"]}),
    "closesreader": (["CH TRY(c.read(B, 9)) mark(1);", "on(1); C->disconnect(); mark(2);"], 'nonblocking1 read1 @0 9 read1 @2 7 wait closing drop waits close1 #2 #50 #1', {"read": [2, (3,), "again"]}),
    "cancelswriter": (["CH incoming(191, 0); TRY(c.write(B, 9)) on(1); c.disconnect(); mark(1);", "cancel_me();"], 'nonblocking1 wait #51 closing drop close1 #1'),
    "cancelsreader": (["CH incoming(91, 0); TRY(c.read(B, 9)) on(1); c.disconnect(); mark(1);", "cancel_me();"], 'nonblocking1 wait #51 closing drop close1 #1'),
    "again": ("CH TRY(c.connect()) got(c.connected());", 'nonblocking1 #52 1'),
    "available": (["CH incoming(91, 0); wait(c.data_available()); mark(1);", "mark(2); incoming(91, 1);"], 'nonblocking1 wait #2 #1'),
    "flush": ("CH c.flush();", 'nonblocking1 flush1'),
    "device": ('{ arpc::char_dev_connection c("/dev/x"); arpc::connection& d = c; d.write(B, 1); got(d.read(B, 2)); } mark(1);', "opened '/dev/x' 3 nonblocking1 write1 @0 1 read1 @0 2 2 closing drop close1 #1"),
    "client": ('{ arpc::client_socket_connection c(arpc::endpoint(17)); arpc::connection& d = c; d.write(B, 1); got(d.read(B, 2)); } mark(1);', 'dialled17 nonblocking1 write1 @0 1 read1 @0 2 2 closing drop close1 #1'),
    "stream": ("CH arpc::output_stream& o = c; o.write(B, 3); o.flush(); arpc::input_stream& s = c; got(s.read(B, 2)); s.getc();", 'nonblocking1 write1 @0 3 flush1 read1 @0 2 2 read1 @0 1'),
    # Made again whenever needed.
    "lazy": ("RE mark(1); got(r.connected()); TRY(r.write(B, 3)) TRY(r.read(B, 3)) TRY(r.putc(' ')) TRY(r.getc()) TRY(r.flush()) TRY(r.data_available()) r.disconnect(); mark(2);", '#1 0 #50 #50 #50 #50 #50 #50 #2'),
    "connect": ("RE r.connect(); mark(1); got(r.connected()); r.write(B + 2, 3); got(r.read(B + 1, 4)); r.putc(9); got(r.getc()); r.flush(); mark(2);", 'made 7 seven #1 1 write @2 3 read @1 4 4 putc 9 getc 6 flush #2', {"connected": [1], "read": [4], "getc": [6]}),
    "connected": ("RE r.connect(); mark(1); r.connect(); mark(2); r.write(B, 1);", 'made 7 seven #1 #2 write @0 1', {"connected": [1]}),
    "reconnect": ("RE r.connect(); mark(1); got(r.connected()); r.connect(); mark(2); r.write(B, 1);", 'made 7 seven #1 0 drop ended made 7 seven #2 write @0 1', {"connected": [0]}),
    "reconnect2": ("RE r.connect(); r.disconnect(); mark(1); got(r.connected()); TRY(r.write(B, 1)) r.connect(); mark(2); r.write(B, 1); r.disconnect(); r.disconnect();", 'made 7 seven disconnect drop ended #1 0 #50 made 7 seven #2 write @0 1 disconnect drop ended', {"connected": [1]}),
    "noconnect": ("RE TRY(r.connect()) mark(1); got(r.connected()); TRY(r.write(B, 1)) r.connect(); r.write(B, 2);", 'made 7 seven #50 #1 0 #50 made 7 seven write @0 2', {"make": ["io_error", ""], "connected": [1]}),
    "noreconnect": ("RE r.connect(); mark(1); TRY(r.connect()) got(r.connected()); TRY(r.write(B, 1)) r.connect(); r.write(B, 2);", 'made 7 seven #1 drop ended made 7 seven #54 0 #50 made 7 seven write @0 2', {"make": ["", "X", ""], "connected": [0]}),
    "destroyed": ("{ Re r(7, \"seven\"); r.connect(); mark(1); } mark(2); { Re r(7, \"seven\"); } mark(3);", 'made 7 seven #1 disconnect drop ended #2 #3'),
    "fails": ("RE r.connect(); TRY(r.write(B, 1)) TRY(r.read(B, 1)) r.disconnect();", 'made 7 seven write @0 1 #50 read @0 1 #54 disconnect drop ended', {"write": ["io_error"], "read": ["X"]}),
    "waits": (["RE r.connect(); incoming(91, 0); wait(r.data_available()); mark(1); on(1); r.disconnect();", "mark(2); incoming(91, 1);"], 'made 7 seven wait #2 #1 disconnect drop ended'),
    "waits2": (["RE r.connect(); incoming(91, 0); TRY(wait(r.data_available())) mark(1); on(1); r.disconnect();", "mark(2); cancel_me();"], 'made 7 seven wait #2 #51 #1 disconnect drop ended'),
    "waits3": (["RE r.connect(); incoming(91, 0); wait(r.data_available()); mark(1);", "on(1); R->disconnect(); mark(2); incoming(91, 1);"], 'made 7 seven wait disconnect drop waits ended #2 #1'),
    "waitsfails": ("RE r.connect(); TRY(wait(r.data_available())) on(1); r.disconnect();", 'made 7 seven #54 disconnect drop ended', {"available": ["X"]}),
    # Packets.
    "packets": ("PK mark(1); i.connect(); i.send(\"out\"); auto s = i.receive(); gots(&s); got(i.connected()); i.disconnect(); mark(2);", "made 7 3 #1 connect sends 7 'out' receives 7 'in' 1 disconnect #2", {"connected": [1]}),
    "packets2": ("PK TRY(i.connect()) TRY(i.send(\"out\")) TRY(i.receive()) got(i.connected());", "made 7 3 connect #54 sends 7 'out' #50 receives 7 #53 0", {"connect": ["X"], "send": ["io_error"], "receive": ["eof"], "connected": [0]}),
    "packetsready": (["PK incoming(91, 0); wait(i.data_available()); mark(1);", "mark(2); incoming(91, 1);"], 'made 7 3 wait #2 #1'),
    "packetsend": ("{ Pk p(7, std::make_unique<int>(3)); mark(1); } mark(2);", 'made 7 3 #1 disconnect ended #2'),
}


def init(ip, st):
    rpcs.init(ip, st)
    st.mem[("$ready",)] = {91: 1, 191: 1}


def build(name, table):
    src, code = "", {}
    for n, v in table.items():
        steps = v[0] if isinstance(v[0], list) else [v[0]]
        for k, c in enumerate(steps):
            src += "void probe_%s_%d() { %s %s}\n" % (n, k, c, "back(%d); " % k if k else "")
        code[n] = (["probe_%s_%d" % (n, k) for k in range(len(steps))], " / ".join(steps), v[1], v[2] if len(v) > 2 else None)
    return ir.extract([ir.compile_bc(name + ".cpp", FLAGS, SRC + src)], POL), code


def play(rep, table):
    errs.STRS.clear()
    prog, code = build("conns", table)

    def one(sub, n):
        steps, c, want, net = code[n]
        outs, ip = asyncs.explore(prog, steps[0], init, model(prog, steps, net), cls=rpcs.Interp, max_visits=400)
        sub.require(1, "paths of " + n, len(outs))
        for k, st in outs:
            bad = [e for e in st.events if e[0] in ("relock", "badunlock", "doublefree", "terminate")]
            sub.check(not bad, "locks:" + n, "locks are taken and released in turn", "%s: `%s`: %s" % (W, c, bad[:2]))
            late = futures.late_use(st)
            sub.check(not late, "late:" + n, "nothing is used after it is freed", "%s: `%s` %s" % (W, c, late))
        got = {rpcs.story(k, st) for k, st in outs}
        sub.check(len(got) == 1 and got <= set(want if isinstance(want, tuple) else [want]), n, "what is done with the channel", "%s: `%s`: %s; should be %s" % (W, c, " or ".join(sorted(got)), want[0] if isinstance(want, tuple) else want))
    par.each(rep, one, list(code))


def c48(rep, tier):
    play(rep, CONN)
