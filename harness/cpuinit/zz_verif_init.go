package cpu

// Built in by the harness's overlay only: selects the CPU feature set of this
// process (the library itself never calls Initialize).
import "os"

func init() {
	if v, ok := os.LookupEnv("VERIF_CPU"); ok {
		Initialize(v)
	}
}
