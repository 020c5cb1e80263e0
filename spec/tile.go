package rpspec

import (
	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	mono "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// TileState is a text state. absent has a bit for every sub-message that is missing.
func TileState(absent, formatting, pair, stateIcon, modIcon int, solid, inverted, fixed bool, iv, iv2 int, title, line1, line2 string,
	cface, cw, ch, tface, tw, th int, ufs, pad, spacing int, scale, rl, rh, ll, lh int) *rwp.HWCText {
	t := &rwp.HWCText{
		Formatting: rwp.HWCText_FormattingE(formatting), PairMode: rwp.HWCText_PairModeE(pair),
		StateIcon: rwp.HWCText_StateIconE(stateIcon), ModifierIcon: rwp.HWCText_ModifierIconE(modIcon),
		SolidHeaderBar: solid, Inverted: inverted, IntegerValue: int32(iv), IntegerValue2: int32(iv2),
		Title: title, Textline1: line1, Textline2: line2,
	}
	if absent&1 == 0 {
		t.TextStyling = &rwp.HWCText_TextStyle{FixedWidth: fixed, TitleBarPadding: uint32(pad), ExtraCharacterSpacing: uint32(spacing), UnformattedFontSize: uint32(ufs)}
		if absent&2 == 0 {
			t.TextStyling.TextFont = &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(cface), TextWidth: uint32(cw), TextHeight: uint32(ch)}
		}
		if absent&4 == 0 {
			t.TextStyling.TitleFont = &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(tface), TextWidth: uint32(tw), TextHeight: uint32(th)}
		}
	}
	if absent&8 == 0 {
		t.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(scale), RangeLow: int32(rl), RangeHigh: int32(rh), LimitLow: int32(ll), LimitHigh: int32(lh)}
	}
	return t
}

// TileColors sets colours: kind 0 none, 1 index, 2 RGB, 3 a colour that says nothing.
func TileColors(t *rwp.HWCText, pkind, p, bkind, b int) {
	col := func(kind, v int) *rwp.Color {
		switch kind {
		case 1:
			return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(v)}}
		case 2:
			return &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(v >> 16 & 255), Green: uint32(v >> 8 & 255), Blue: uint32(v & 255)}}
		case 3:
			return &rwp.Color{}
		}
		return nil
	}
	t.PixelColor, t.BackgroundColor = col(pkind, p), col(bkind, b)
}

// Tile renders a state. how: 0 at once, 1 the same state again, 2 after another state was rendered,
// 3 after it was rendered with another geometry.
func Tile(how int, t *rwp.HWCText, w, h, shrink, border int) *mono.MonoImg {
	switch how {
	case 1:
		rawpanellib.WriteDisplayTileNew(t, w, h, shrink, border)
	case 3:
		rawpanellib.WriteDisplayTileNew(t, 256, 20, 0, 0)
		rawpanellib.WriteDisplayTileNew(t, 40, 57, 3, 2)
	case 2:
		o := &rwp.HWCText{Formatting: 0, PairMode: 2, Inverted: true, Title: "Else", SolidHeaderBar: true, Textline1: "x", IntegerValue: 7, StateIcon: 3, ModifierIcon: 2,
			PixelColor:  &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: 5}},
			TextStyling: &rwp.HWCText_TextStyle{FixedWidth: true, ExtraCharacterSpacing: 2}, Scale: &rwp.HWCText_ScaleM{ScaleType: 1, RangeHigh: 10}}
		rawpanellib.WriteDisplayTileNew(o, 22, 31, 3, 1)
	}
	r := rawpanellib.WriteDisplayTileNew(t, w, h, shrink, border)
	return &r
}

// TileBits is the content of a tile.
func TileBits(img *mono.MonoImg) []byte { return img.GetImgSlice() }

// TileRGB is the RGB export of a tile.
func TileRGB(img *mono.MonoImg) []byte { return img.GetImgSliceRGB() }

// TileSize is the size of a tile and its colours.
func TileSize(img *mono.MonoImg) (int, int, int, int) {
	return img.Width, img.Height, int(img.OLEDPixelColor), int(img.OLEDBckgColor)
}

// TileText renders a text on an empty canvas.
func TileText(w, h int, text string, font int, prop bool, sh, sv int, spacing int) (*mono.MonoImg, int, int) {
	img := &mono.MonoImg{}
	img.NewImage(w, h)
	img.SetTextWrap(false)
	img.SetFont(font, prop)
	img.SetTextSize(sh, sv)
	img.SetCharSpacingCompensation(byte(spacing))
	img.SetTextColor(true)
	img.SetCursor(0, 0)
	img.RenderText(text)
	return img, img.StrWidth(text), int(img.LineHeight())
}
