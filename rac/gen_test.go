package cp

import (
	"math"

	"github.com/jakecoffman/cp/v2/zzrac"
)

func init() {
	unit := func(r *zzrac.Rand) any {
		a := r.Float64() * 2 * math.Pi
		switch r.Intn(4) {
		case 0:
			return []Vector{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}[r.Intn(4)]
		case 1:
			return []Vector{{0.6, 0.8}, {-0.8, 0.6}, {0.28, -0.96}}[r.Intn(3)]
		}
		return Vector{math.Cos(a), math.Sin(a)}
	}
	box := func(r *zzrac.Rand) any {
		a, b, c, d := zzrac.RandFloat(r), zzrac.RandFloat(r), zzrac.RandFloat(r), zzrac.RandFloat(r)
		return BB{math.Min(a, b), math.Min(c, d), math.Max(a, b), math.Max(c, d)}
	}
	verifGens["cp.BB"] = box
	verifGens["Transform.AxialScale.axis"] = unit
	verifGens["cp.Transform"] = func(r *zzrac.Rand) any {
		if r.Intn(2) == 0 {
			return NewTransformRigid(Vector{zzrac.RandFloat(r), zzrac.RandFloat(r)}, zzrac.RandFloat(r))
		}
		return Transform{zzrac.RandFloat(r), zzrac.RandFloat(r), zzrac.RandFloat(r), zzrac.RandFloat(r), zzrac.RandFloat(r), zzrac.RandFloat(r)}
	}
	verifGens["Vector.Unrotate.o"] = unit
}
