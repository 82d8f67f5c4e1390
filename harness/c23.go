package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/halo"
	rio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C23", "Random and limiting cosmologies (flat, open, Einstein-de Sitter, empty of dark energy, any H0 from 1 to 1000), redshifts from -0.9 to 1100, masses and radii over 30 decades, all five overdensity definitions, separate and shared output slices, every spelling of radius names. Non-trivial: a distinct cosmology class, redshift bin and definition.",
		Group{"cosmo", 2000, 100000, 1, rep(10, c23Cosmo)},
		Group{"radius", 2000, 100000, 1, rep(5, c23Radius)},
		Group{"names", 300, 10000, 1, rep(5, c23Names)})
}

type overdensity struct {
	r     halo.Radius
	name  string
	delta float64
	mean  bool
}

var overdensities = []overdensity{
	{halo.RVirial, "vir", 177.653, false}, {halo.R200c, "200c", 200, false},
	{halo.R500c, "500c", 500, false}, {halo.R2500c, "2500c", 2500, false}, {halo.R200m, "200m", 200, true},
}

// cosmology draws H0, matter and dark energy densities and a redshift.
func (t *T) cosmology() (h0, om, ol, z float64, kind string) {
	r := t.R
	om = 0.01 + r.Float64()*1.5
	switch r.Intn(5) {
	case 0:
		om, ol, kind = 1, 0, "Einstein-de Sitter"
	case 1:
		ol, kind = r.Float64(), "curved"
	case 2:
		om, kind = r.Float64()*0.5+1e-3, "no dark energy"
	default:
		om = 0.01 + 0.98*r.Float64()
		ol, kind = 1-om, "flat"
	}
	h0 = 20 + 100*r.Float64()
	if r.Intn(4) == 0 {
		h0 = math.Pow(10, 3*r.Float64())
	}
	switch r.Intn(5) {
	case 0:
		z = 0
	case 1:
		z = -0.9 * r.Float64()
	case 2:
		z = math.Pow(10, 3*r.Float64())
	default:
		z = 10 * r.Float64()
	}
	return
}

func (t *T) near(site, what string, got, want, tol float64) bool {
	if !(math.Abs(got-want) <= tol*math.Abs(want)) {
		t.Failf(site, "%s = %.17g, want %.17g", what, got, want)
		return false
	}
	return true
}

func c23Cosmo(t *T, i int) {
	h0, om, ol, z, kind := t.cosmology()
	desc := fmt.Sprintf("(H0 %g, OmegaM %g, OmegaL %g, z %g)", h0, om, ol, z)
	a := 1 / (1 + z)
	e2 := om/(a*a*a) + ol
	const rho0 = 2.775e11 // Msun/h / (Mpc/h)^3; measured constants allow 0.1%
	e := cosmo.HubbleFrac(om, ol, z)
	if !t.near("expansion", "HubbleFrac"+desc+" squared", e*e, e2, 1e-12) {
		return
	}
	if kind == "flat" || kind == "Einstein-de Sitter" {
		if !t.near("expansion", "HubbleFrac today in a flat model "+desc, cosmo.HubbleFrac(om, ol, 0), 1, 1e-12) {
			return
		}
	}
	rc, rm := cosmo.RhoCritical(h0, om, ol, z), cosmo.RhoAverage(h0, om, ol, z)
	rc0 := cosmo.RhoCritical(h0, om, ol, 0)
	if !t.near("critical density", "RhoCritical"+desc, rc, rho0*e2, 1e-3) ||
		!t.near("critical density", "RhoCritical"+desc+" over today's", rc/rc0, e2/(om+ol), 1e-12) ||
		!t.near("critical density", "RhoCritical with H0 of 70 against "+desc, cosmo.RhoCritical(70, om, ol, z), rc, 1e-12) ||
		!t.near("mean density", "RhoAverage"+desc, rm, om*rc0/(a*a*a), 1e-12) {
		return
	}
	if kind == "flat" || kind == "Einstein-de Sitter" {
		omz := om / (a * a * a) / e2
		if !t.near("mean density", "RhoAverage/RhoCritical"+desc, rm/rc, omz, 1e-12) {
			return
		}
	}
	t.Eval(6)
	t.Nontrivial("%s/%.0f", kind, 10*math.Log2(1+z))
	t.Sample("%s: E %g, critical %g, mean %g", desc, e, rc, rm)
}

func c23Radius(t *T, i int) {
	r := t.R
	h0, om, ol, z, kind := t.cosmology()
	c := &rio.CosmologyHeader{Z: z, OmegaM: om, OmegaL: ol, H100: h0 / 100}
	c0 := *c
	o := overdensities[r.Intn(len(overdensities))]
	desc := fmt.Sprintf("%s (h %g, OmegaM %g, OmegaL %g, z %g)", o.name, h0/100, om, ol, z)
	n := r.Intn(6)
	in := make([]float64, n)
	radii := r.Intn(2) == 0
	for j := range in {
		if radii {
			in[j] = math.Pow(10, -7+9*r.Float64())
		} else {
			in[j] = math.Pow(10, -3+22*r.Float64())
		}
	}
	if n > 0 && r.Intn(5) == 0 {
		in[r.Intn(n)] = 0
	}
	in0 := clone(in)
	out, back, same := rubbish(n), rubbish(n), clone(in)
	site := "radius of " + o.name
	if radii {
		site = "mass of " + o.name
	}
	if !t.NoPanic(site, func() {
		if radii {
			o.r.Mass(c, in, out)
			o.r.Radius(c, out, back)
			o.r.Mass(c, same, same)
		} else {
			o.r.Radius(c, in, out)
			o.r.Mass(c, out, back)
			o.r.Radius(c, same, same)
		}
	}) {
		return
	}
	if !equalF(in, in0) || *c != c0 {
		t.Failf(site, "%s: the input was modified", desc)
		return
	}
	if !equalF(same, out) {
		t.Failf(site, "%s: %v written to another slice, %v in place", desc, out, same)
		return
	}
	// Densities per comoving volume follow from the constants alone.
	a := 1 / (1 + z)
	e2 := om/(a*a*a) + ol
	rho := cosmo.RhoCritical(h0, om, ol, 0) / (om + ol)
	if o.mean {
		rho *= om / (a * a * a) * (om + ol)
	} else {
		rho *= e2
	}
	for j := range in {
		m, rad := in[j], out[j]
		if radii {
			m, rad = out[j], in[j]
		}
		if !t.near(site, desc+" and back", back[j], in[j], 1e-12) {
			return
		}
		want := 4 * math.Pi / 3 * o.delta * rho * math.Pow(rad*a, 3)
		if !t.near(site, fmt.Sprintf("%s: mass %g within radius %g", desc, m, rad), m, want, 1e-12) {
			return
		}
		t.Eval(2)
	}
	t.Nontrivial("%s/%s/%v/%.0f", o.name, kind, radii, 5*math.Log2(1+z))
}

func c23Names(t *T, i int) {
	r := t.R
	for _, o := range overdensities {
		name := o.name
		if r.Intn(2) == 0 {
			name = "r" + name
		}
		b := []byte(name)
		for j := range b {
			if r.Intn(2) == 0 {
				b[j] = strings.ToUpper(string(b[j : j+1]))[0]
			}
		}
		got, ok := halo.RadiusFromString(string(b))
		if !ok || got != o.r {
			t.Failf("names", "RadiusFromString(%q) = %d, %v", b, got, ok)
			return
		}
		s := o.r.String()
		if got, ok = halo.RadiusFromString(s); !ok || got != o.r {
			t.Failf("names", "%s is written as %q and parsed as %d, %v", o.name, s, got, ok)
			return
		}
		if strings.TrimPrefix(strings.ToLower(s), "r") != o.name {
			t.Failf("names", "%s is written as %q", o.name, s)
			return
		}
		// Names with a letter replaced, added or removed are not radii.
		k := r.Intn(len(b) + 1)
		var bad string
		switch {
		case k == len(b):
			bad = string(b) + string(rune('a'+r.Intn(26)))
		case r.Intn(2) == 0:
			bad = string(b[:k]) + "x" + string(b[k+1:])
		default:
			bad = string(b[:k]) + "q" + string(b[k:])
		}
		if got, ok = halo.RadiusFromString(bad); ok {
			t.Failf("names", "RadiusFromString(%q) is accepted as %s", bad, got)
			return
		}
		t.Eval(4)
		t.Nontrivial("%s", b)
	}
	if _, ok := halo.RadiusFromString(""); ok {
		t.Failf("names", "an empty radius name is accepted")
	}
}
