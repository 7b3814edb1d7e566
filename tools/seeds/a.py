SEEDS = [
dict(id='c03-segquery-start-inside', prop='C03',
  edits=[('bb.go', 'if tmin <= tmax && 0 <= tmax && tmin <= 1.0 {\n\t\treturn math.Max(tmin, 0.0)', 'if tmin <= tmax && 0 <= tmax && tmin <= 1.0 {\n\t\tif tmin < 0 && tmax > 1 {\n\t\t\treturn math.Min(tmax, 1.0)\n\t\t}\n\t\treturn math.Max(tmin, 0.0)')],
  needs='a segment lying completely inside the box', breaks='the reported fraction is no longer the smallest one at which the segment is inside the box',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	bb := BB{-10, -10, 10, 10}
	if got := bb.SegmentQuery(Vector{-1, 0}, Vector{1, 1}); got != 0 {
		t.Fatal("segment starting inside must hit at 0, got", got)
	}
}
'''),
dict(id='c02-bb-half-turn', prop='C02',
  edits=[('transform.go', 'hw_max := math.Max(math.Abs(a+b), math.Abs(a-b))', 'hw_max := math.Max(math.Abs(a+b), a-b)')],
  needs='a rotation by more than a quarter turn (or a mirroring) of a box with both sides contributing to the width', breaks='the transformed box no longer contains the images of all corners',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	tr := NewTransformRotate(-2.2)
	bb := BB{-1, -2, 3, 1}
	out := tr.BB(bb)
	for _, p := range []Vector{{-1, -2}, {-1, 1}, {3, -2}, {3, 1}} {
		q := tr.Point(p)
		if q.X < out.L-1e-9 || q.X > out.R+1e-9 || q.Y < out.B-1e-9 || q.Y > out.T+1e-9 {
			t.Fatal("corner image", q, "outside", out)
		}
	}
}
'''),
dict(id='c01-clamp-slack', prop='C01',
  edits=[('vector.go', 'if v.Dot(v) > length*length {', 'if l := math.Max(length, 0.125); v.Dot(v) > l*l {')],
  needs='a clamp bound below 1/8 and a vector between the bound and 1/8', breaks='clamping exceeds the bound for small bounds',
  demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	got := Vector{0.06, 0.08}.Clamp(0.05)
	if got.Length() > 0.05+1e-9 {
		t.Fatal("clamped length", got.Length())
	}
}
'''),
]
