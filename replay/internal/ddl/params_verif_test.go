package ddl_test

import (
	"fmt"
	"reflect"
	"strconv"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/verifkit"
)

var storageParams = []struct{ key, field, kind string }{
	{"fillfactor", "Fillfactor", "int"},
	{"parallel_workers", "ParallelWorkers", "int"},
	{"autovacuum_enabled", "AutovacuumEnabled", "bool"},
	{"autovacuum_vacuum_threshold", "AutovacuumVacuumThreshold", "int"},
	{"autovacuum_vacuum_scale_factor", "AutovacuumVacuumScaleFactor", "float64"},
	{"autovacuum_analyze_threshold", "AutovacuumAnalyzeThreshold", "int"},
	{"autovacuum_analyze_scale_factor", "AutovacuumAnalyzeScaleFactor", "float64"},
	{"autovacuum_vacuum_cost_limit", "AutovacuumVacuumCostDelay", "int"},
	{"autovacuum_freeze_min_age", "AutovacuumFreezeMinAge", "int"},
	{"autovacuum_freeze_max_age", "AutovacuumFreezeMaxAge", "int"},
	{"autovacuum_freeze_table_age", "AutovacuumFreezeTableAge", "int"},
	{"autovacuum_multixact_freeze_min_age", "AutovacuumMultixactFreezeMinAge", "int"},
	{"autovacuum_multixact_freeze_max_age", "AutovacuumMultixactFreezeMaxAge", "int"},
	{"autovacuum_multixact_freeze_table_age", "AutovacuumMultixactFreezeTableAge", "int"},
	{"log_autovacuum_min_duration", "LogAutovacuumMinDuration", "int"},
	{"user_catalog_table", "UserCatalogTable", "bool"},
}

func TestVerifReplayP21(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	values := []string{"", "0", "1", "-1", "42", "+7", "007", "0x10", "1e3", "0.1", ".5", "0.30000000000000004", "1e400", "true", "false", "t", "F", "on", "x", " 1", "1 ", "9223372036854775807", "9223372036854775808", "-0", "NaN"}
	describe := func(p *ddl.TableStorageParameters) (r []string) {
		v := reflect.ValueOf(p).Elem()
		for _, s := range storageParams {
			f := v.FieldByName(s.field)
			if f.IsNil() {
				r = append(r, "nil")
			} else {
				r = append(r, fmt.Sprint(f.Elem().Interface()))
			}
		}
		return
	}
	for k.More() {
		p := &ddl.TableStorageParameters{}
		var log []string
		for n := 1 + k.R.Intn(6); n > 0; n-- {
			key := []string{"", "Fillfactor", "fillfactor ", "toast.autovacuum_enabled", "autovacuum_vacuum_cost_delay"}[k.R.Intn(5)]
			if k.R.Intn(8) > 0 {
				key = storageParams[k.R.Intn(len(storageParams))].key
			}
			val := values[k.R.Intn(len(values))]
			log = append(log, key+"="+val)
			k.Do(fmt.Sprintf("settings %q in order", log), func() string {
				want := describe(p)
				before := *p
				keep := describe(&before)
				bad := false
				for i, s := range storageParams {
					if s.key != key {
						continue
					}
					switch s.kind {
					case "int":
						x, err := strconv.ParseInt(val, 10, 64)
						if bad = err != nil; !bad {
							want[i] = fmt.Sprint(x)
						}
					case "bool":
						x, err := strconv.ParseBool(val)
						if bad = err != nil; !bad {
							want[i] = fmt.Sprint(x)
						}
					case "float64":
						x, err := strconv.ParseFloat(val, 64)
						if bad = err != nil; !bad {
							want[i] = fmt.Sprint(x)
						}
					}
				}
				err := p.Set(key, val)
				if (err != nil) != bad {
					return fmt.Sprintf("error %v", err)
				}
				if got := describe(p); !reflect.DeepEqual(got, want) {
					return fmt.Sprintf("fields %v, want %v", got, want)
				}
				if got := describe(&before); !reflect.DeepEqual(got, keep) {
					return "a copy made before was altered"
				}
				return ""
			})
		}
	}
}
