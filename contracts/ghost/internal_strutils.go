package strutils

// Encoding, then decoding.
func ghostUTF16(s string) string {
	x := StringToUTF16(s)
	b := []byte(x)
	y := UTF16ToString(b)
	return y
}


// Decoding, then encoding.
func ghostPDFDoc(b []byte) []byte {
	s := PDFDocEncodingToString(b)
	return StringToPDFDocEncoding(s)
}

// Encoding, then decoding.
func ghostPDFDocBack(s string) string {
	b := StringToPDFDocEncoding(s)
	return PDFDocEncodingToString(b)
}
