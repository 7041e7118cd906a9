package internal/pg

// ---------------------------------------------------------------- connections

// the environment's settings
ghost envHost: string
ghost envPort: uint16
ghost envUser: string
ghost envPassword: string
ghost envDatabase: string
ghost envTLS: *tls.Config
ghost envFallback: bool
ghost envFallbackTLS: *tls.Config

// every attempt to connect, in order
ghost dials: int
ghost dialHost: tmap[int]string
ghost dialPort: tmap[int]uint16
ghost dialUser: tmap[int]string
ghost dialPassword: tmap[int]string
ghost dialDatabase: tmap[int]string
ghost dialTLS: tmap[int]*tls.Config
ghost dialFallback: tmap[int]bool
ghost dialFallbackTLS: tmap[int]*tls.Config
// the connections opened and not closed
ghost opens: set[*pgx.Conn]
ghost openN: int
ghost lastErr: error

extern github.com/jackc/pgx.ParseEnvLibpq() (cfg, err)
  modifies nothing
  ensures settings: err == nil ==> cfg.Host == envHost && cfg.Port == envPort && cfg.User == envUser && cfg.Password == envPassword && cfg.Database == envDatabase
  ensures tls: err == nil ==> cfg.TLSConfig == envTLS && cfg.UseFallbackTLS == envFallback && cfg.FallbackTLSConfig == envFallbackTLS

extern github.com/jackc/pgx.Connect(cfg) (c, err)
  modifies dials, dialHost, dialPort, dialUser, dialPassword, dialDatabase, dialTLS, dialFallback, dialFallbackTLS, opens, openN, lastErr
  ensures counted: dials == old(dials) + 1 && lastErr == err
  ensures host: dialHost == update(old(dialHost), old(dials), cfg.Host)
  ensures port: dialPort == update(old(dialPort), old(dials), cfg.Port)
  ensures user: dialUser == update(old(dialUser), old(dials), cfg.User)
  ensures password: dialPassword == update(old(dialPassword), old(dials), cfg.Password)
  ensures database: dialDatabase == update(old(dialDatabase), old(dials), cfg.Database)
  ensures tls: dialTLS == update(old(dialTLS), old(dials), cfg.TLSConfig)
  ensures fallback: dialFallback == update(old(dialFallback), old(dials), cfg.UseFallbackTLS)
  ensures fallbacktls: dialFallbackTLS == update(old(dialFallbackTLS), old(dials), cfg.FallbackTLSConfig)
  ensures open: err == nil ==> c != nil && fresh(c) && opens == setadd(old(opens), c) && openN == old(openN) + 1
  ensures new: err == nil ==> !(c in old(opens))
  ensures failed: err != nil ==> c == nil && opens == old(opens) && openN == old(openN)

extern github.com/jackc/pgx.(*Conn).Close(c) (err)
  requires c: c != nil
  modifies opens
  ensures closed: opens == setdel(old(opens), c)

extern go.uber.org/zap.(*SugaredLogger).Desugar(l) (r)
  requires l: l != nil
  modifies nothing
  ensures new: fresh(r)

extern github.com/jackc/pgx/log/zapadapter.NewLogger(l) (r)
  modifies nothing
  ensures new: fresh(r)

pred unverified(t: *tls.Config) = t != nil && t.InsecureSkipVerify
pred verified(t: *tls.Config, host: string) = t != nil && !t.InsecureSkipVerify && t.ServerName == host

func internal/pg.applySSLMode(cfg, sslmode) (err)
  props P11
  requires cfg: cfg != nil
  modifies cfg.UseFallbackTLS, cfg.TLSConfig, cfg.FallbackTLSConfig
  ensures known: err == nil <==> (sslmode == "disable" || sslmode == "allow" || sslmode == "prefer" || sslmode == "require" || sslmode == "verify-full")
  ensures disable: sslmode == "disable" ==> cfg.TLSConfig == nil && !cfg.UseFallbackTLS
  ensures allow: sslmode == "allow" ==> cfg.TLSConfig == nil && cfg.UseFallbackTLS && unverified(cfg.FallbackTLSConfig)
  ensures prefer: sslmode == "prefer" ==> unverified(cfg.TLSConfig) && cfg.UseFallbackTLS && cfg.FallbackTLSConfig == nil
  ensures require: sslmode == "require" ==> unverified(cfg.TLSConfig) && !cfg.UseFallbackTLS
  ensures verify: sslmode == "verify-full" ==> verified(cfg.TLSConfig, cfg.Host) && !cfg.UseFallbackTLS

func internal/pg.firstOfString(a, b) (r)
  props P12
  modifies nothing
  ensures given: a != "" ==> r == a
  ensures default: a == "" ==> r == b

func internal/pg.firstOfUint16(a, b) (r)
  props P12
  modifies nothing
  ensures given: a != 0 ==> r == a
  ensures default: a == 0 ==> r == b

// an attempt of this call
pred tried(n: int, a: int, b: int) = a <= n && n < b
pred settings(host: string, port: uint16, user: string, password: string, database: string, a: int, b: int) = (forall n: int :: tried(n, a, b) ==> (host != "" ==> dialHost[n] == host) && (host == "" ==> dialHost[n] == envHost) && (port != 0 ==> dialPort[n] == port) && (port == 0 ==> dialPort[n] == envPort) && (user != "" ==> dialUser[n] == user) && (user == "" ==> dialUser[n] == envUser) && (password != "" ==> dialPassword[n] == password) && (password == "" ==> dialPassword[n] == envPassword) && (database != "" ==> dialDatabase[n] == database) && (database == "" ==> dialDatabase[n] == envDatabase))
pred attempts(o: *Options, a: int, b: int) = settings(o.Host, o.Port, o.Username, o.Password, o.Database, a, b)
pred strict(mode: string, password: string) = mode == "verify-full" || mode == "" && (password != "" || envPassword != "")
pred tlsPolicy(mode: string, password: string, n: int) = (mode == "disable" ==> dialTLS[n] == nil && !dialFallback[n]) && (mode == "allow" ==> dialTLS[n] == nil && dialFallback[n] && unverified(dialFallbackTLS[n])) && (mode == "prefer" ==> unverified(dialTLS[n]) && dialFallback[n] && dialFallbackTLS[n] == nil) && (mode == "require" ==> unverified(dialTLS[n]) && !dialFallback[n]) && (strict(mode, password) ==> verified(dialTLS[n], dialHost[n]) && !dialFallback[n]) && (mode == "" && !strict(mode, password) ==> dialTLS[n] == envTLS && dialFallback[n] == envFallback && dialFallbackTLS[n] == envFallbackTLS)
pred policy(o: *Options, n: int) = tlsPolicy(o.SSLMode, o.Password, n)
pred known(mode: string) = mode == "" || mode == "disable" || mode == "allow" || mode == "prefer" || mode == "require" || mode == "verify-full"

func internal/pg.New(o) (r, err)
  props P11 P12
  requires in: o != nil && o.Log != nil
  modifies dials, dialHost, dialPort, dialUser, dialPassword, dialDatabase, dialTLS, dialFallback, dialFallbackTLS, opens, openN, lastErr, slept
  ensures policy: forall n: int :: tried(n, old(dials), dials) ==> policy(o, n)
  ensures unknown: !known(o.SSLMode) ==> err != nil && dials == old(dials)
  ensures settings: attempts(o, old(dials), dials)
  ensures bounded: dials > old(dials) ==> dials <= old(dials) + 1 + o.ConnectRetries || dials == old(dials) + 1
  ensures all: err != nil && dials > old(dials) ==> dials >= old(dials) + 1 + o.ConnectRetries && err == lastErr
  ensures one: err == nil ==> r != nil && fresh(r) && r.conn != nil && opens == setadd(old(opens), r.conn) && openN == old(openN) + 1 && dials > old(dials)
  ensures new: err == nil ==> r.log != nil && !(r.conn in old(opens))
  ensures none: err != nil ==> r == nil && opens == old(opens) && openN == old(openN)
  inv failed for (n: phi int): dials == old(dials) + n && n >= 0 && opens == old(opens) && openN == old(openN)
  inv tries for (n: phi int): n > 0 ==> n <= o.ConnectRetries
  inv attempts: attempts(o, old(dials), dials)
  inv policy: forall n: int :: tried(n, old(dials), dials) ==> policy(o, n)

func internal/pg.(*Conn).Close(c) (err)
  props P12
  requires c: c != nil && c.conn != nil
  modifies opens
  ensures closed: opens == setdel(old(opens), c.conn)
