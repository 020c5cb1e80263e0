package rpspec

import mono "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"

// MonoSlack is the number of bytes beyond the content in a given buffer.
const MonoSlack = 3

// MonoCanvas is a canvas with the given content, bounding box and inversion. Its history is one of several.
func MonoCanvas(how int, w, h int, content []byte, bx, by, bw, bh int, inv bool) *mono.MonoImg {
	img := &mono.MonoImg{}
	switch how {
	case 1: // the same image was used before, with another size and another bounding box
		img.NewImage(13, 3)
		img.SetBoundingBox(1, 1, 4, 1)
		img.InvertPixels(!inv)
		img.FillRect(0, 0, 5, 5, true)
		img.InvertPixels(false)
		img.NewImage(w, h)
	case 2: // the content was given
		given := make([]byte, len(content)+MonoSlack)
		for i, b := range content {
			given[i] = b
		}
		img.CreateFromBytes(w, h, given)
	case 3: // another bounding box was used before
		img.NewImage(w, h)
		img.SetBoundingBox(2, -1, 3, 2)
		img.FillRect(-1, -1, w+5, h+5, !inv)
		img.DrawPixel(0, 0, inv)
		img.SetBoundingBox(0, 0, w, h)
		img.DrawPixel(0, 0, inv)
	default:
		img.NewImage(w, h)
	}
	for i, b := range content {
		img.GetImgSlice()[i] = b
	}
	img.SetBoundingBox(bx, by, bw, bh)
	img.InvertPixels(inv)
	return img
}

// MonoDraw performs one drawing operation.
func MonoDraw(img *mono.MonoImg, op int, x, y, w, h, r int, color bool) {
	switch op {
	case 0:
		img.DrawPixel(x, y, color)
	case 1:
		img.DrawFastHLine(x, y, w, color)
	case 2:
		img.DrawFastVLine(x, y, h, color)
	case 3:
		img.FillRect(x, y, w, h, color)
	case 4:
		img.DrawRoundRect(x, y, w, h, r, color)
	case 5:
		img.FillRoundRect(x, y, w, h, r, color)
	case 6:
		img.DrawCircleHelper(x, y, r, w, color)
	case 7:
		img.FillCircleHelper(x, y, r, w, h, color)
	}
}

// MonoBitmap draws a bitmap.
func MonoBitmap(img *mono.MonoImg, x, y int, bitmap []byte, w, h int, color, inverted, all bool) {
	img.DrawBitmap(x, y, bitmap, w, h, color, inverted, all)
}

// MonoChar draws one character and returns the width and height of its cell.
func MonoChar(img *mono.MonoImg, x, y int, c int, color, bg bool, font int, prop bool, sh, sv int) (int, int) {
	img.SetFont(font, prop)
	img.SetTextSize(sh, sv)
	img.DrawChar(x, y, byte(c), color, bg, sh, sv)
	return int(img.GetCharWidth(byte(c))) * sh, int(img.LineHeight())
}

// MonoText renders a text.
func MonoText(img *mono.MonoImg, x, y int, text string, color bool, font int, prop bool, sh, sv int, wrap bool, spacing int) {
	img.SetFont(font, prop)
	img.SetTextSize(sh, sv)
	img.SetTextColor(color)
	img.SetTextWrap(wrap)
	img.SetCharSpacingCompensation(byte(spacing))
	img.SetCursor(x, y)
	img.RenderText(text)
}

// MonoSlice is the content of the canvas.
func MonoSlice(img *mono.MonoImg) []byte { return img.GetImgSlice() }

// MonoSize is what else is visible of a canvas.
func MonoSize(img *mono.MonoImg) []int {
	return []int{img.Width, img.Height, img.GetBWidth(), img.GetBHeight(), int(img.OLEDBckgColor), int(img.OLEDPixelColor)}
}

// MonoSizeRef is what MonoSize has to be.
func MonoSizeRef(w, h int, bw, bh int) []int {
	if bw <= 0 {
		bw = w
	}
	if bh <= 0 {
		bh = h
	}
	return []int{w, h, bw, bh, 0, 0xffff}
}

// MonoInk renders a text without wrapping and returns what is reported of it, before and after.
func MonoInk(img *mono.MonoImg, x, y int, text string, color bool, font int, prop bool, sh, sv int, spacing int, used bool) (int, int, int, int) {
	img.SetTextWrap(false)
	if used { // the settings were different before
		img.SetFont((font+1)%3, !prop)
		img.SetTextSize(sv+1, sh)
		img.SetCharSpacingCompensation(byte(spacing + 1))
		img.StrWidth(text)
		img.LineHeight()
		img.SetCharSpacingCompensation(byte(spacing))
		img.SetTextSize(sh, sv)
		img.StrWidth(text)
		img.SetFont(font, prop)
	} else {
		img.SetFont(font, prop)
		img.SetTextSize(sh, sv)
		img.SetCharSpacingCompensation(byte(spacing))
	}
	img.SetTextColor(color)
	img.SetCursor(x, y)
	w, h := img.StrWidth(text), int(img.LineHeight())
	img.RenderText(text)
	return w, h, img.StrWidth(text), int(img.LineHeight())
}
