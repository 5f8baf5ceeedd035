------------------------------- MODULE AuthMC -------------------------------
(* The design: a server that authenticates as specified, an arbitrary client, and the monitor of Auth.tla running
   alongside.  TLC explores every exchange of up to MaxResp responses in every configuration, and checks that the
   monitor accepts the design (it demands nothing a correct server doesn't do), and - independently of the monitor -
   that no command is ever served under an identity that nobody proved.  Every complete exchange is printed as a plan,
   which the conformance check replays on the real server.                                                       *)
EXTENDS Auth

CONSTANT Shallow

A(name, plugin, pw, old, ident) == [name |-> name, plugin |-> plugin, pw |-> pw, old |-> old, ident |-> ident]
Accounts == << A("np", "native", "p1", "-", "np"), A("nn", "native", "-", "-", "nn"),
               A("n2", "native", "p1", "p2", "real_n2"), A("no", "native", "-", "p2", "no"),
               A("nb", "native", "!", "-", "nb"), A("nbo", "native", "!", "p2", "nbo"),
               A("cl", "clear", "p1", "-", "id_cl"), A("nl", "nologin", "p1", "-", "nl"),
               A("dp", "-", "p1", "-", "dp"), A("up", "absent", "p1", "-", "up"),
               A("c2", "clear2", "p2", "-", "id_c2"), A("ts", "twostep", "p1", "p2", "id_ts"),
               A("kb", "kerberos", "p1", "-", "id_kb"), A("nl0", "nologin", "-", "-", "nl0") >>
Cfg(plugins) == [plugins |-> plugins, default |-> plugins[1], accounts |-> Accounts]
Configs == << Cfg(<<"native", "nologin">>), Cfg(<<"native", "clear", "nologin">>), Cfg(<<"clear", "native", "nologin">>),
              Cfg(<<"nologin", "native", "clear">>), Cfg(<<"clear", "clear2", "native", "nologin">>),
              Cfg(<<"clear2", "twostep", "clear", "native">>), Cfg(<<"twostep", "native", "clear">>),
              Cfg(<<"kerberos", "native">>), Cfg(<<"native", "kerberos", "clear">>) >>
Users == {"np", "nn", "n2", "no", "nb", "nbo", "cl", "nl", "dp", "up", "c2", "ts", "kb", "nl0", "ghost"}
Plugins == {NativePlugin, ClearPlugin, KrbPlugin, "weird", "", "none"}

(* Nonce identities of the model: 1 = handshake, 2 = challenge, 9 = another connection's *)
R(k, pw, nonce, mut) == [k |-> k, pw |-> pw, nonce |-> nonce, mut |-> mut]
Native(n) ==
  {R("scr", pw, n, "exact") : pw \in {"p1", "p2", "px"}}
  \cup {R("scr", "p1", n, m) : m \in {"flip", "trunc", "ext"}}
  \cup {R("scr", "p1", 9, "exact"), R("scr", "p2", n, "flip")}
  \cup (IF n = 2 THEN {R("scr", "p1", 1, "exact")} ELSE {})
Clear == {R("clear", pw, 0, "exact") : pw \in {"p1", "p2", "px"}} \cup {R("clear", "p1", 0, "nonul")}
         \cup {R("clear", pw, 0, "alt") : pw \in {"p1", "p2"}}
Tickets == {R("krb", pw, 0, "exact") : pw \in {"p1", "p2", "px"}} \cup {R("krb", "p1", 0, "alt")}
(* Whatever a client of plugin p may answer, and some of what it shouldn't *)
Responses(n, p) ==
  {R("empty", "-", 0, "exact"), R("garbage", "-", 0, "exact"), R("eof", "-", 0, "exact")}
  \cup (IF p = ClearPlugin THEN Clear \cup {R("scr", "p1", n, "exact")}
        ELSE IF p = NativePlugin THEN Native(n) \cup {R("clear", "p1", 0, "exact"), R("clear", "p1", 0, "nonul")}
        ELSE IF p = KrbPlugin THEN Tickets \cup {R("scr", "p1", n, "exact"), R("clear", "p1", 0, "exact")}
        ELSE {R("scr", "p1", n, "exact"), R("scr", "p2", n, "exact"), R("scr", "p1", n, "ext"), R("clear", "p1", 0, "exact")})

VARIABLES ci,     \* configuration
          srv,    \* server: [ph, user, ident, claim, plug, nonce, proved]
          mon,    \* the monitor's state
          plan    \* what the client did so far
vars == <<ci, srv, mon, plan>>
cfg == Configs[ci]

Out(k) == [k |-> k, plugin |-> "", nonce |-> -1, bytes |-> <<>>]
NB == [k \in 1..21 |-> IF k = 21 THEN 0 ELSE 65]
Chal(p, n) == [k |-> "chal", plugin |-> p, nonce |-> n, bytes |-> IF p = NativePlugin THEN NB ELSE <<>>]
Rec(send, out, calls, user, closed) ==
  [send |-> send, out |-> out, calls |-> calls, username |-> user, closed |-> closed]
C(c, u) == [c |-> c, user |-> u]

(* The design's decision on a response for user u *)
Decide(u, p, n, r, st, send, changing) ==
  LET close == IF st.ident = "-" THEN <<>> ELSE <<C("close", st.ident)>>
      err == <<[st EXCEPT !.ph = "dead"], Rec(send, <<Out("err")>>, close, st.ident, TRUE)>>
      ok == LET id == Identity(cfg, u) IN
            <<[st EXCEPT !.ph = "cmd", !.ident = id, !.proved = @ \cup {id}],
              Rec(send, <<Out("ok")>>, <<C(IF changing THEN "reset" ELSE "init", id)>>, id, FALSE)>>
  IN IF r.k = "eof" THEN <<[st EXCEPT !.ph = "dead"], Rec(send, <<>>, close, st.ident, TRUE)>>
     ELSE IF ~Known(cfg, u) THEN err
     ELSE LET a == Acct(cfg, u)
              sp == PluginOf(cfg, a)
              cp == ClientSide(sp)
          IN IF sp = "nologin" THEN err
             ELSE IF st.ph # "chal" /\ (p # cp \/ (sp = "native" /\ n < 0))
               THEN <<[st EXCEPT !.ph = "chal", !.user = u, !.plug = cp, !.nonce = IF sp = "native" THEN 2 ELSE -1,
                                 !.changing = changing],
                      Rec(send, <<Chal(IF p = cp THEN "" ELSE cp, IF sp = "native" THEN 2 ELSE -1)>>, <<>>,
                          st.ident, FALSE)>>
             ELSE IF sp \in {"twostep", "kerberos"} /\ Len(st.rounds) = 0
               THEN <<[st EXCEPT !.ph = "chal", !.user = u, !.plug = cp, !.nonce = -1, !.changing = changing,
                                 !.rounds = <<FirstRound(a, cp, r)>>],
                      Rec(send, <<Chal("", -1)>>, <<>>, st.ident, FALSE)>>
             ELSE IF Exact(a, sp, cp, n, r, st.rounds) THEN ok ELSE err

Init == /\ ci \in 1..Len(Configs)
        /\ srv = [ph |-> "hs", user |-> "-", ident |-> "-", plug |-> "-", nonce |-> -1, changing |-> FALSE, proved |-> {},
                  rounds |-> <<>>]
        /\ mon = Step(Configs[ci], S0, Rec([t |-> "open"],
                 <<[k |-> "greet", plugin |-> IF Configs[ci].default = "native" THEN NativePlugin ELSE "x",
                    nonce |-> 1, bytes |-> NB]>>, <<>>, "-", FALSE))
        /\ plan = <<>>

HsNonce == IF cfg.default = "native" THEN 1 ELSE -1
Do(d) == srv' = d[1] /\ mon' = Step(cfg, mon, d[2]) /\ plan' = Append(plan, d[2].send) /\ UNCHANGED ci

Handshake == /\ srv.ph = "hs"
             /\ \E u \in Users, p \in Plugins : \E r \in Responses(1, p) :
                  Do(Decide(u, p, HsNonce, r, srv, [t |-> "hs", user |-> u, plugin |-> p, resp |-> r], FALSE))
Response == /\ srv.ph = "chal"
            /\ \E r \in Responses(2, srv.plug) :
                  Do(Decide(srv.user, srv.plug, srv.nonce, r, srv, [t |-> "resp", resp |-> r], srv.changing))
(* One way in per configuration and identity in Shallow is enough to explore COM_CHANGE_USER from *)
Canonical == /\ plan[1].user \in Shallow
             /\ plan[1].plugin = ClientSide(PluginOf(cfg, Acct(cfg, plan[1].user)))
             /\ Len(plan) = 1 \/ (Len(plan) = 2 /\ plan[2].t = "resp" /\ plan[1].resp.k = "garbage")
             /\ plan[Len(plan)].resp.mut = "exact"
ChangeUser == /\ srv.ph = "cmd" /\ Canonical
              /\ \E u \in Users, p \in Plugins : \E r \in Responses(1, p) :
                  Do(Decide(u, p, HsNonce, r, [srv EXCEPT !.rounds = <<>>], [t |-> "chuser", user |-> u, plugin |-> p, resp |-> r], TRUE))
Next == Handshake \/ Response \/ ChangeUser

(* The design never serves an unproved identity, and a dead connection stays dead *)
Served == srv.ph = "cmd" => srv.ident \in srv.proved
MonitorAccepts == mon.clause = ""
MonitorTracks == mon.ph = srv.ph /\ (srv.ph # "dead" => mon.ident = srv.ident)
(* Only exact proofs get in *)
Sound == srv.ph = "cmd" =>
  LET k == CHOOSE k \in 1..Len(plan) : plan[k].t \in {"hs", "chuser"} /\ \A j \in k+1..Len(plan) : plan[j].t = "resp"
      a == Acct(cfg, plan[k].user)
      r == plan[Len(plan)].resp
  IN \/ r.k = "empty" /\ a.pw = "-"
     \/ r.k = "krb" /\ r.pw = "p1" /\ r.mut = "exact" /\ srv.ident = plan[k].user
     \/ r.pw \in Passwords(a) /\ r.mut = "exact" /\ r.nonce # 9
Final2 == srv.ph \in {"dead", "cmd"}
Emit == Final2 => PrintT(<<"PLAN", ToJson([c |-> ci, plan |-> plan, dead |-> srv.ph = "dead"])>>)
=============================================================================
