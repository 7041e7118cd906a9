package internal/logger

// what a core and a logger write: shows(x, w, l) when a message of severity l
// given to x reaches the writer w
fun coreShows(zapcore.Core, io.Writer, int) bool
fun logShows(*zap.Logger, io.Writer, int) bool
fun shows(*zap.SugaredLogger, io.Writer, int) bool
fun syncOf(zapcore.WriteSyncer) io.Writer

extern go.uber.org/zap/zapcore.AddSync(w) (r)
  ensures same: r != nil && syncOf(r) == w

extern go.uber.org/zap/zapcore.NewCore(enc, ws, enab) (r)
  requires known: typeis(enab, zapcore.Level)
  ensures level: r != nil && (forall w: io.Writer, l: int :: {coreShows(r, w, l)} coreShows(r, w, l) == (w == syncOf(ws) && l >= as(enab, zapcore.Level)))

extern go.uber.org/zap/zapcore.NewTee(cores) (r)
  ensures all: r != nil && (forall w: io.Writer, l: int :: {coreShows(r, w, l)} coreShows(r, w, l) == (exists i in cores :: coreShows(cores[i], w, l)))

extern go.uber.org/zap.New(core, options) (r)
  ensures core: r != nil && (len(options) == 0 ==> (forall w: io.Writer, l: int :: {logShows(r, w, l)} logShows(r, w, l) == coreShows(core, w, l)))

extern go.uber.org/zap.(*Logger).Sugar(l) (r)
  requires l: l != nil
  ensures same: r != nil && (forall w: io.Writer, k: int :: {shows(r, w, k)} shows(r, w, k) == logShows(l, w, k))

extern go.uber.org/zap.(*SugaredLogger).Infof(l, template, args)
  requires l: l != nil

extern go.uber.org/zap/zapcore.NewConsoleEncoder(cfg) (r)
  ensures r: r != nil

// the severities: -1 debug, 0 information, 1 warning, 2 error
pred wanted(verbosity: int, l: int) = l >= 2 || l == 1 && verbosity >= 1 || l == 0 && verbosity >= 2 || l == -1 && verbosity >= 3

func internal/logger.New(verbosity, defaultLog, debugLog) (r)
  props P22
  modifies nothing
  ensures r: r != nil
  ensures default: forall l: int :: -1 <= l && l <= 5 && defaultLog != debugLog ==> shows(r, defaultLog, l) == wanted(verbosity, l)
  ensures debug: debugLog != nil ==> (forall l: int :: -1 <= l && l <= 5 ==> shows(r, debugLog, l))
  ensures only: forall w: io.Writer, l: int :: w != defaultLog && (w != debugLog || debugLog == nil) ==> !shows(r, w, l)

func internal/logger.Discard() (r)
  props P22
  modifies nothing
  ensures quiet: r != nil && (forall w: io.Writer :: !shows(r, w, -1) && !shows(r, w, 0) && !shows(r, w, 1))

// files and terminals
fun fdOf(io.Writer) int
fun terminal(int) bool

extern (interface{Fd() uintptr}).Fd(x) (r)
  ensures fd: r == fdOf(x)
extern os.(*File).Fd(x) (r)
  requires open: x != nil
  ensures fd: r == fdOf(box(x, *os.File))
extern (interface{Name() string}).Name(x) (r)
extern github.com/mattn/go-isatty.IsTerminal(fd) (r)
  ensures tty: r == terminal(fd)
