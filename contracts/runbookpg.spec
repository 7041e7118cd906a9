package internal/runbook/pg

func internal/runbook/pg.(*Target).Start(t) (err)
  props P11 P12
  requires in: t != nil && t.log != nil
  modifies t.conn, dials, dialHost, dialPort, dialUser, dialPassword, dialDatabase, dialTLS, dialFallback, dialFallbackTLS, opens, openN, lastErr, slept
  ensures policy: forall n: int :: tried(n, old(dials), dials) ==> tlsPolicy(t.SSLMode, t.Password, n)
  ensures unknown: !known(t.SSLMode) ==> err != nil && dials == old(dials)
  ensures settings: settings(t.Host, t.Port, t.Username, t.Password, t.Database, old(dials), dials)
  ensures bounded: dials > old(dials) ==> dials <= old(dials) + 1 + t.ConnectRetries || dials == old(dials) + 1
  ensures all: err != nil && dials > old(dials) ==> dials >= old(dials) + 1 + t.ConnectRetries && err == lastErr
  ensures one: err == nil ==> t.conn != nil && t.conn.conn != nil && opens == setadd(old(opens), t.conn.conn) && openN == old(openN) + 1
  ensures none: err != nil ==> t.conn == old(t.conn) && opens == old(opens) && openN == old(openN)

func internal/runbook/pg.(*Target).Stop(t) (err)
  props P12
  requires started: t != nil && t.conn != nil && t.conn.conn != nil
  modifies opens
  ensures closed: opens == setdel(old(opens), t.conn.conn)
