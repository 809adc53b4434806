package main

import (
	"fmt"
	"image/color"
)

// PImg is a decoded PDF image XObject, 8 bit (or 16 bit) components.
type PImg struct {
	W, H   int
	Pix    []color.NRGBA64 // colour and alpha
	Space  string
	BPC    int
	DCT    bool
	HasSM  bool
	Decode []float64
	SMObj  int
}

func (d *Doc) decodeImage(v any) (*PImg, error) {
	s := d.Stream(v)
	if s == nil {
		return nil, fmt.Errorf("not a stream")
	}
	if t := d.Name(s.Dict["Type"]); t != "" && t != "XObject" {
		return nil, fmt.Errorf("/Type %s", t)
	}
	w, ok1 := d.Int(s.Dict["Width"])
	h, ok2 := d.Int(s.Dict["Height"])
	if !ok1 || !ok2 || w <= 0 || h <= 0 {
		return nil, fmt.Errorf("bad size %v x %v", s.Dict["Width"], s.Dict["Height"])
	}
	bpc, ok := d.Int(s.Dict["BitsPerComponent"])
	if !ok || (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16) {
		return nil, fmt.Errorf("BitsPerComponent %v", s.Dict["BitsPerComponent"])
	}
	im := &PImg{W: w, H: h, BPC: bpc}
	var pal []byte
	palN := 0
	hival := 0
	cs := d.R(s.Dict["ColorSpace"])
	switch x := cs.(type) {
	case pName:
		im.Space = string(x)
	case pArr:
		if len(x) == 0 {
			return nil, fmt.Errorf("empty colour space array")
		}
		im.Space = d.Name(x[0])
		if im.Space == "Indexed" {
			if len(x) != 4 {
				return nil, fmt.Errorf("Indexed space %v", x)
			}
			base := d.Name(x[1])
			palN = map[string]int{"DeviceRGB": 3, "DeviceGray": 1, "DeviceCMYK": 4}[base]
			if palN == 0 {
				return nil, fmt.Errorf("Indexed base %v", x[1])
			}
			var okh bool
			hival, okh = d.Int(x[2])
			if !okh || hival < 0 || hival > 255 {
				return nil, fmt.Errorf("Indexed hival %v", x[2])
			}
			switch t := d.R(x[3]).(type) {
			case pStr:
				pal = t
			case *pStream:
				b, fl, err := d.Decode(t)
				if err != nil || fl != "" {
					return nil, fmt.Errorf("palette: %v %s", err, fl)
				}
				pal = b
			default:
				return nil, fmt.Errorf("Indexed lookup %T", t)
			}
			if len(pal) < (hival+1)*palN {
				return nil, fmt.Errorf("palette has %d bytes for hival %d", len(pal), hival)
			}
		}
	default:
		return nil, fmt.Errorf("no ColorSpace")
	}
	n := map[string]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4, "Indexed": 1}[im.Space]
	if n == 0 {
		return nil, fmt.Errorf("colour space %q", im.Space)
	}
	if da := d.Arr(s.Dict["Decode"]); da != nil {
		im.Decode = fl(da)
		if len(da) != 2*n {
			return nil, fmt.Errorf("Decode array of %d numbers for %d components", len(da), n)
		}
	}
	data, filter, err := d.Decode(s)
	if err != nil {
		return nil, err
	}
	im.Pix = make([]color.NRGBA64, w*h)
	if filter == "DCTDecode" {
		im.DCT = true
		comps, jn, jw, jh, err := jpegBlocks(data)
		if err != nil {
			return nil, fmt.Errorf("DCT: %v", err)
		}
		if jw != w || jh != h {
			return nil, fmt.Errorf("DCT image is %dx%d but dictionary says %dx%d", jw, jh, w, h)
		}
		if jn != n {
			return nil, fmt.Errorf("DCT image has %d components but ColorSpace is %s", jn, im.Space)
		}
		if bpc != 8 {
			return nil, fmt.Errorf("DCT image of %d bits", bpc)
		}
		for i, v := range comps {
			for k := 0; k < n && im.Decode != nil; k++ {
				v[k] = 255 * (im.Decode[2*k] + v[k]/255*(im.Decode[2*k+1]-im.Decode[2*k]))
			}
			q := func(f float64) uint16 { return uint16(f/255*65535 + 0.5) }
			u := func(k int) float64 { return (255 - v[k]) * (255 - v[3]) / 255 }
			switch n {
			case 1:
				im.Pix[i] = color.NRGBA64{q(v[0]), q(v[0]), q(v[0]), 65535}
			case 3:
				im.Pix[i] = color.NRGBA64{q(v[0]), q(v[1]), q(v[2]), 65535}
			case 4:
				im.Pix[i] = color.NRGBA64{q(u(0)), q(u(1)), q(u(2)), 65535}
			}
		}
	} else if filter != "" {
		return nil, fmt.Errorf("filter %s", filter)
	} else {
		row := (w*n*bpc + 7) / 8
		if len(data) < row*h {
			return nil, fmt.Errorf("image data has %d bytes, %d needed", len(data), row*h)
		}
		if len(data) > row*h+2 {
			return nil, fmt.Errorf("image data has %d bytes, only %d needed", len(data), row*h)
		}
		max := float64(uint(1)<<uint(bpc) - 1)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				var c [4]float64
				var raw [4]int
				for k := 0; k < n; k++ {
					i := x*n + k
					var v int
					switch bpc {
					case 8:
						v = int(data[y*row+i])
					case 16:
						v = int(data[y*row+2*i])<<8 | int(data[y*row+2*i+1])
					default:
						bit := i * bpc
						v = int(data[y*row+bit/8]) >> uint(8-bpc-bit%8) & (1<<uint(bpc) - 1)
					}
					raw[k] = v
					c[k] = float64(v) / max
					if im.Decode != nil && im.Space != "Indexed" {
						c[k] = im.Decode[2*k] + c[k]*(im.Decode[2*k+1]-im.Decode[2*k])
					}
				}
				sp := im.Space
				if sp == "Indexed" {
					if raw[0] > hival {
						return nil, fmt.Errorf("palette index %d > hival %d", raw[0], hival)
					}
					for k := 0; k < palN; k++ {
						c[k] = float64(pal[raw[0]*palN+k]) / 255
					}
					sp = map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[palN]
				}
				q := func(f float64) uint16 { return uint16(f*65535 + 0.5) }
				switch sp {
				case "DeviceGray":
					im.Pix[y*w+x] = color.NRGBA64{q(c[0]), q(c[0]), q(c[0]), 65535}
				case "DeviceRGB":
					im.Pix[y*w+x] = color.NRGBA64{q(c[0]), q(c[1]), q(c[2]), 65535}
				case "DeviceCMYK":
					im.Pix[y*w+x] = color.NRGBA64{q((1 - c[0]) * (1 - c[3])), q((1 - c[1]) * (1 - c[3])), q((1 - c[2]) * (1 - c[3])), 65535}
				}
				// colour key mask
				if ma := d.Arr(s.Dict["Mask"]); ma != nil {
					if len(ma) != 2*n {
						return nil, fmt.Errorf("colour key mask of %d numbers for %d components", len(ma), n)
					}
					masked := true
					for k := 0; k < n; k++ {
						lo, _ := d.Int(ma[2*k])
						hi, _ := d.Int(ma[2*k+1])
						if raw[k] < lo || raw[k] > hi {
							masked = false
						}
					}
					if masked {
						im.Pix[y*w+x].A = 0
					}
				}
			}
		}
	}
	if sm, ok := s.Dict["SMask"]; ok {
		m, err := d.decodeImage(sm)
		if err != nil {
			return nil, fmt.Errorf("SMask: %v", err)
		}
		if m.Space != "DeviceGray" {
			return nil, fmt.Errorf("SMask colour space %s", m.Space)
		}
		im.HasSM = true
		im.SMObj = refNum(sm)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				im.Pix[y*w+x].A = m.Pix[(y*m.H/h)*m.W+x*m.W/w].R
			}
		}
	}
	return im, nil
}
