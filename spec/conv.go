package rpspec

import (
	"image"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	mono "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ConvMono is a mono image with the given content and colours.
func ConvMono(how int, w, h int, content []byte, pixel, bckg uint16) *mono.MonoImg {
	img := &mono.MonoImg{}
	switch how {
	case 1: // the content was given, and is longer
		given := make([]byte, len(content)+3)
		for i, b := range content {
			given[i] = b
		}
		img.CreateFromBytes(w, h, given)
	case 2: // the same image had another size before
		img.NewImage(11, 2)
		img.SetOLEDPixelColor(9)
		img.GetImgSliceRGB()
		img.NewImage(w, h)
		img.SetBoundingBox(1, 0, 2, 1)
		img.InvertPixels(true)
		img.SetFont(1, false)
		img.SetTextSize(2, 1)
	default:
		img.NewImage(w, h)
	}
	for i, b := range content {
		img.GetImgSlice()[i] = b
	}
	img.OLEDPixelColor, img.OLEDBckgColor = pixel, bckg
	return img
}

// ConvShort is a mono image made from the bytes.
func ConvShort(w, h int, b []byte) *mono.MonoImg {
	img := &mono.MonoImg{}
	img.CreateFromBytes(w, h, b)
	return img
}

// ConvRGB and ConvGray are the exports.
func ConvRGB(img *mono.MonoImg) []byte  { return img.GetImgSliceRGB() }
func ConvGray(img *mono.MonoImg) []byte { return img.GetImgSliceGray() }

// ConvColors sets colours and returns both, before and after.
func ConvColors(op, c int) (uint16, uint16) {
	img := &mono.MonoImg{}
	img.NewImage(8, 1)
	switch op {
	case 0:
		img.SetOLEDPixelColor(c)
	case 1:
		img.SetOLEDBckgColor(c)
	case 2: // again
		img.SetOLEDPixelColor(63 - c)
		img.SetOLEDBckgColor(63 - c)
		img.SetOLEDPixelColor(c)
	case 3:
		img.SetOLEDPixelColor(63 - c)
		img.SetOLEDBckgColor(63 - c)
		img.SetOLEDBckgColor(c)
	}
	return img.OLEDPixelColor, img.OLEDBckgColor
}

// ConvThere is the image object of a mono image.
func ConvThere(img *mono.MonoImg, invert bool) image.Image { return img.ConvertToImage(invert) }

// ConvBack is the mono image of an image object.
func ConvBack(src image.Image, used bool) *mono.MonoImg {
	img := &mono.MonoImg{}
	if used {
		img.NewImage(19, 5)
		img.FillRect(0, 0, 19, 5, true)
	}
	img.CreateFromImage(src)
	return img
}

// ConvSize is the size of a mono image.
func ConvSize(img *mono.MonoImg) (int, int) { return img.Width, img.Height }

// ConvMonoSlice is the content of a mono image.
func ConvMonoSlice(img *mono.MonoImg) []byte { return img.GetImgSlice() }

// PngDecode is the image in PNG data (known to the analysis).
func PngDecode(b []byte) image.Image { return nil }

// ConvGfx converts a graphics state.
func ConvGfx(how int, typ int, w, h uint32, data []byte, tw, th int) image.Image {
	gfx := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(typ), W: w, H: h, ImageData: data}
	switch how {
	case 0:
		return rawpanellib.RwpImgToImage(gfx, tw, th)
	case 1:
		switch gfx.ImageType {
		case rwp.HWCGfx_RGB16bit:
			return rawpanellib.CreateImgObjectFromRGBBytes(int(w), int(h), data)
		case rwp.HWCGfx_Gray4bit:
			return rawpanellib.CreateImgObjectFromGrayBytes(int(w), int(h), data)
		}
	case 2:
		b, err := rawpanellib.ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: gfx})
		if err != nil {
			return nil
		}
		return PngDecode(b)
	}
	return nil
}

// ConvBounds are the bounds of an image.
func ConvBounds(img image.Image) (int, int, int, int) {
	b := img.Bounds()
	return b.Min.X, b.Min.Y, b.Max.X, b.Max.Y
}

// ConvPixels are the colours of an image's pixels.
func ConvPixels(img image.Image) []byte {
	b := img.Bounds()
	out := make([]byte, (b.Max.X-b.Min.X)*(b.Max.Y-b.Min.Y)*4)
	i := 0
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, a := img.At(x, y).RGBA()
			out[i] = byte(r >> 8)
			out[i+1] = byte(g >> 8)
			out[i+2] = byte(bl >> 8)
			out[i+3] = byte(a >> 8)
			i += 4
		}
	}
	return out
}
