package p18

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/pkg/geo"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

// angle is the central angle between two places, from their positions on the unit sphere.
func angle(a, b geo.Coordinate) float64 {
	p := func(c geo.Coordinate) [3]float64 {
		la, lo := c.Lat*math.Pi/180, c.Lng*math.Pi/180
		return [3]float64{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
	}
	u, v := p(a), p(b)
	var d, s float64
	for i := range u {
		d += (u[i] - v[i]) * (u[i] - v[i])
		s += (u[i] + v[i]) * (u[i] + v[i])
	}
	return 2 * math.Atan2(math.Sqrt(d), math.Sqrt(s))
}

func km(a, b geo.Coordinate) float64 { return geo.EarthRadiusKM * angle(a, b) }

// place draws a coordinate, often at a pole, at the date line, near zero or near another place.
func place(near []geo.Coordinate) *rapid.Generator[geo.Coordinate] {
	return rapid.Custom(func(t *rapid.T) geo.Coordinate {
		lat := rapid.OneOf(rapid.Float64Range(-90, 90), rapid.SampledFrom([]float64{0, 90, -90, 89.99, -89.95, 60, 0.05, -0.05, 85})).Draw(t, "lat")
		lng := rapid.OneOf(rapid.Float64Range(-180, 180), rapid.SampledFrom([]float64{0, 180, -180, 179.99, -179.97, 0.05, -0.05, 90})).Draw(t, "lng")
		if len(near) > 0 && rapid.Bool().Draw(t, "near another") {
			o := rapid.SampledFrom(near).Draw(t, "other")
			switch rapid.IntRange(0, 4).Draw(t, "how near") {
			case 0:
				lat, lng = o.Lat, o.Lng
			case 1: // antipode
				lat, lng = -o.Lat, o.Lng+180
				if lng > 180 {
					lng -= 360
				}
			default:
				d := rapid.SampledFrom([]float64{0.0001, 0.1, 1, 10}).Draw(t, "distance")
				lat = math.Max(-90, math.Min(90, o.Lat+rapid.Float64Range(-d, d).Draw(t, "dlat")))
				lng = o.Lng + rapid.Float64Range(-d, d).Draw(t, "dlng")
				if lng > 180 {
					lng -= 360
				} else if lng < -180 {
					lng += 360
				}
			}
		}
		return geo.Coordinate{Lat: lat, Lng: lng}
	})
}

var units = map[geo.DistanceUnit]float64{geo.Kilometers: 1, geo.Miles: 1.60934, geo.Meters: 0.001}

func TestGeo(t *testing.T) {
	h.Check(t, h.Opt{Quick: 300, Thorough: 20000, Steps: 25}, func(c *h.C) {
		g := geo.NewGeoIndex()
		model := map[string]geo.GeoPoint{}
		moved, deleted := false, false
		coords := func() []geo.Coordinate {
			var ids []string
			for id := range model {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			var out []geo.Coordinate
			for _, id := range ids {
				out = append(out, model[id].Coordinate)
			}
			return out
		}
		same := func(p geo.GeoPoint) {
			if want, ok := model[p.ID]; !ok || !reflect.DeepEqual(p, want) {
				c.Fatalf("got point %+v, stored is %+v", p, want)
			}
		}
		// within checks that got are exactly the points whose margin (positive inside) is clear of zero.
		within := func(got []geo.GeoPoint, margin func(geo.Coordinate) float64) {
			seen := map[string]bool{}
			for _, p := range got {
				same(p)
				if seen[p.ID] {
					c.Fatalf("%q is returned twice", p.ID)
				}
				seen[p.ID] = true
				if margin(p.Coordinate) < -1e-6 {
					c.Fatalf("%+v lies outside", p)
				}
			}
			for id, p := range model {
				if !seen[id] && margin(p.Coordinate) > 1e-6 {
					c.Fatalf("%+v is not returned", p)
				}
			}
			if len(got) > 0 && len(got) < len(model) && moved && deleted {
				c.NonTrivial()
			}
		}
		if n := rapid.SampledFrom([]int{0, 0, 0, 60, 1500, 6000}).Draw(c.T, "points already there"); n > 0 {
			o, spread, seed := place(nil).Draw(c.T, "middle"), rapid.SampledFrom([]float64{0.3, 2, 30}).Draw(c.T, "spread"), rapid.Int64().Draw(c.T, "seed")
			c.Op("%d points around %+v within %v degrees, seed %d", n, o, spread, seed)
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < n; i++ {
				p := geo.GeoPoint{ID: fmt.Sprint("q", i)}
				p.Coordinate.Lat = math.Max(-90, math.Min(90, o.Lat+(2*r.Float64()-1)*spread))
				p.Coordinate.Lng = math.Mod(o.Lng+(2*r.Float64()-1)*spread+540, 360) - 180
				c.Must(g.Insert(p), "Insert")
				model[p.ID] = p
			}
		}
		c.T.Repeat(map[string]func(*rapid.T){
			"insert": func(t *rapid.T) {
				p := geo.GeoPoint{ID: rapid.SampledFrom([]string{"p", "p", "q"}).Draw(t, "kind") + fmt.Sprint(rapid.IntRange(0, 7).Draw(t, "id")), Coordinate: place(coords()).Draw(t, "place")}
				if rapid.Bool().Draw(t, "metadata") {
					p.Metadata = map[string]any{"k": rapid.IntRange(0, 9).Draw(t, "value")}
				}
				c.Op("insert %+v", p)
				c.Must(g.Insert(p), "Insert")
				if old, ok := model[p.ID]; ok && old.Coordinate != p.Coordinate {
					moved = true
				}
				model[p.ID] = p
			},
			"insert refused": func(t *rapid.T) {
				p := geo.GeoPoint{ID: fmt.Sprint("p", rapid.IntRange(0, 7).Draw(t, "id")), Coordinate: place(nil).Draw(t, "place")}
				switch rapid.IntRange(0, 3).Draw(t, "damage") {
				case 0:
					p.ID = ""
				case 1:
					p.Coordinate.Lat = rapid.SampledFrom([]float64{90.01, -91, math.NaN(), math.Inf(1)}).Draw(t, "lat")
				default:
					p.Coordinate.Lng = rapid.SampledFrom([]float64{180.01, -181, math.NaN(), math.Inf(-1)}).Draw(t, "lng")
				}
				c.Op("insert refused %+v", p)
				if g.Insert(p) == nil {
					c.Fatalf("accepted")
				}
			},
			"delete": func(t *rapid.T) {
				id := rapid.SampledFrom([]string{"p", "p", "q"}).Draw(t, "kind") + fmt.Sprint(rapid.IntRange(0, 7).Draw(t, "id"))
				c.Op("delete %s", id)
				_, ok := model[id]
				if g.Delete(id) != ok {
					c.Fatalf("Delete reports %v", !ok)
				}
				delete(model, id)
				deleted = deleted || ok
			},
			"clear": func(t *rapid.T) {
				if rapid.IntRange(0, 5).Draw(t, "really") > 0 {
					t.Skip("rare")
				}
				c.Op("clear")
				g.Clear()
				model = map[string]geo.GeoPoint{}
			},
			"radius": func(t *rapid.T) {
				center := place(coords()).Draw(t, "center")
				unit := rapid.SampledFrom([]geo.DistanceUnit{geo.Kilometers, geo.Miles, geo.Meters}).Draw(t, "unit")
				f := units[unit]
				r := rapid.OneOf(rapid.Float64Range(0.01, 30), rapid.Float64Range(1, 2000), rapid.Float64Range(1, 25000)).Draw(t, "radius") / f
				if rapid.IntRange(0, 5).Draw(t, "across") == 0 {
					// a circle reaching over a pole, and a point beyond the pole
					x, y := rapid.Float64Range(0.01, 0.3).Draw(t, "to the pole"), rapid.Float64Range(0.01, 0.09).Draw(t, "beyond")
					side := rapid.SampledFrom([]float64{-1, 1}).Draw(t, "pole")
					center.Lat = side * (90 - x)
					r = (x + y*1.01) * math.Pi / 180 * geo.EarthRadiusKM / f
					p := geo.GeoPoint{ID: "p1", Coordinate: geo.Coordinate{Lat: side * (90 - y), Lng: math.Mod(center.Lng+180+rapid.Float64Range(-80, 80).Draw(t, "turn")+540, 360) - 180}}
					c.Op("insert %+v", p)
					c.Must(g.Insert(p), "Insert")
					model[p.ID] = p
				} else if rapid.IntRange(0, 2).Draw(t, "edge") == 0 && math.Abs(center.Lat)+r*f/geo.EarthRadiusKM*180/math.Pi < 90 {
					// a point just inside the circle where it reaches farthest east or west
					a := r * f / geo.EarthRadiusKM * (1 - rapid.SampledFrom([]float64{1e-5, 1e-3, 0.02}).Draw(t, "inside"))
					la, d := center.Lat*math.Pi/180, 0.0
					if x := math.Sin(a) / math.Cos(la); x < 1 {
						d = math.Asin(x) * 180 / math.Pi
					}
					if rapid.Bool().Draw(t, "west") {
						d = -d
					}
					p := geo.GeoPoint{ID: "p0", Coordinate: geo.Coordinate{Lat: math.Asin(math.Max(-1, math.Min(1, math.Sin(la)/math.Cos(a)))) * 180 / math.Pi, Lng: math.Mod(center.Lng+d+540, 360) - 180}}
					c.Op("insert %+v", p)
					c.Must(g.Insert(p), "Insert")
					model[p.ID] = p
				}
				c.Op("within %v %s of %+v", r, unit, center)
				res, err := g.SearchRadius(center, r, unit)
				c.Must(err, "SearchRadius")
				var got []geo.GeoPoint
				for i, x := range res {
					got = append(got, x.Point)
					if d := km(center, x.Point.Coordinate) / f; !h.Near(x.Distance, d, 1e-6*(1/f+d)) {
						c.Fatalf("distance of %+v is %v, want %v", x.Point, x.Distance, d)
					}
					if i > 0 && res[i-1].Distance > x.Distance {
						c.Fatalf("%v is after %v", x.Distance, res[i-1].Distance)
					}
				}
				within(got, func(p geo.Coordinate) float64 { return r*f - km(center, p) })
			},
			"radius refused": func(t *rapid.T) {
				if _, err := g.SearchRadius(geo.Coordinate{Lat: 91}, 1, geo.Kilometers); err == nil {
					c.Fatalf("an impossible center is accepted")
				}
				if _, err := g.SearchRadius(geo.Coordinate{}, -1, geo.Kilometers); err == nil {
					c.Fatalf("a negative radius is accepted")
				}
				if _, err := g.SearchKNN(geo.Coordinate{}, 0); err == nil {
					c.Fatalf("zero neighbours are accepted")
				}
				if _, err := g.SearchBoundingBox(geo.BoundingBox{MinLat: 1, MaxLat: -1}); err == nil {
					c.Fatalf("an impossible box is accepted")
				}
				if _, err := g.SearchPolygon([]geo.Coordinate{{}, {Lat: 1}}); err == nil {
					c.Fatalf("a polygon of two points is accepted")
				}
			},
			"nearest": func(t *rapid.T) {
				center := place(coords()).Draw(t, "center")
				k := rapid.IntRange(1, 9).Draw(t, "k")
				c.Op("%d nearest to %+v", k, center)
				res, err := g.SearchKNN(center, k)
				c.Must(err, "SearchKNN")
				if len(res) != min(k, len(model)) {
					c.Fatalf("%d results of %d points", len(res), len(model))
				}
				worst := -1.0
				seen := map[string]bool{}
				for _, x := range res {
					same(x.Point)
					d := km(center, x.Point.Coordinate)
					if seen[x.Point.ID] || !h.Near(x.Distance, d, 1e-6*(1+d)) || x.Distance < worst {
						c.Fatalf("results %+v", res)
					}
					seen[x.Point.ID] = true
					worst = x.Distance
				}
				for id, p := range model {
					if !seen[id] && km(center, p.Coordinate) < worst-1e-4 {
						c.Fatalf("%+v is nearer than %v", p, worst)
					}
				}
			},
			"box": func(t *rapid.T) {
				a, b := place(coords()).Draw(t, "corner"), place(coords()).Draw(t, "other corner")
				box := geo.BoundingBox{MinLat: math.Min(a.Lat, b.Lat), MaxLat: math.Max(a.Lat, b.Lat), MinLng: math.Min(a.Lng, b.Lng), MaxLng: math.Max(a.Lng, b.Lng)}
				c.Op("in %+v", box)
				got, err := g.SearchBoundingBox(box)
				c.Must(err, "SearchBoundingBox")
				within(got, func(p geo.Coordinate) float64 { // exact, edges included
					if p.Lat >= box.MinLat && p.Lat <= box.MaxLat && p.Lng >= box.MinLng && p.Lng <= box.MaxLng {
						return 1
					}
					return -1
				})
			},
			"polygon": func(t *rapid.T) {
				o := place(coords()).Draw(t, "middle")
				rl := rapid.Float64Range(0.01, 40).Draw(t, "height")
				rn := rapid.Float64Range(0.01, 80).Draw(t, "width")
				o.Lat = math.Max(-90+rl, math.Min(90-rl, o.Lat))
				o.Lng = math.Max(-180+rn, math.Min(180-rn, o.Lng))
				n := rapid.IntRange(3, 7).Draw(t, "corners")
				at := make([]float64, n)
				if rapid.IntRange(0, 3).Draw(t, "diamond") == 0 { // corners level with the middle, where a point may lie
					n = 4
					at = []float64{0, math.Pi / 2, math.Pi, 3 * math.Pi / 2}
				} else {
					for i := range at {
						at[i] = rapid.Float64Range(0, 2*math.Pi).Draw(t, "corner")
					}
				}
				sort.Float64s(at)
				var poly []geo.Coordinate
				for _, x := range at {
					poly = append(poly, geo.Coordinate{Lat: o.Lat + rl*math.Sin(x), Lng: o.Lng + rn*math.Cos(x)})
				}
				sign := 1.0 // corners run against the clock
				if rapid.Bool().Draw(t, "clockwise") {
					sign = -1
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						poly[i], poly[j] = poly[j], poly[i]
					}
				}
				c.Op("in polygon %+v", poly)
				got, err := g.SearchPolygon(poly)
				c.Must(err, "SearchPolygon")
				within(got, func(p geo.Coordinate) float64 {
					m, any := math.Inf(1), false
					for i, a := range poly {
						b := poly[(i+1)%n]
						x, y := b.Lng-a.Lng, b.Lat-a.Lat
						l := math.Hypot(x, y)
						if l < 1e-9 {
							continue
						}
						any = true
						m = math.Min(m, sign*(x*(p.Lat-a.Lat)-y*(p.Lng-a.Lng))/l)
					}
					if !any {
						return 0
					}
					return m
				})
			},
			"": func(t *rapid.T) {
				if g.Size() != len(model) {
					c.Fatalf("%d points, want %d", g.Size(), len(model))
				}
				for i := 0; i < 8; i++ {
					id := fmt.Sprint("p", i)
					p, ok := g.GetPoint(id)
					if _, want := model[id]; ok != want {
						c.Fatalf("GetPoint(%s): %v, want %v", id, ok, want)
					}
					if ok {
						same(*p)
						p.ID, p.Coordinate = "mine", geo.Coordinate{Lat: 12.5, Lng: -7} // a copy: the caller's own
					}
				}
			},
		})
	})
}
