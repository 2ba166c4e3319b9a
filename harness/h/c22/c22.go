// Package c22 checks generated column names.
package c22

import (
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/v"
)

// maxSheet is the number of columns a spreadsheet can have.
const maxSheet = 16384

// decode reads a name as a spreadsheet column: the letters are the digits 1 to 26 of a number in base 26. Every index has one such name.
func decode(s string, a byte) (int, bool) {
	n, ok := 0, len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, v.And(s[i] >= a, s[i] < a+26))
		n = n*26 + int(s[i]-a) + 1
	}
	return n - 1, ok
}

// H_C22_sheet: the spreadsheet name of every index of a spreadsheet; a range per case.
func H_C22_sheet() {
	k := v.Case(16)
	i := k*1024 + int(v.Uint16()&1023)
	s := dsio.ColIndexToLetters(i)
	v.Assert(len(s) >= 1 && len(s) <= 3, "a spreadsheet column has one to three letters")
	n, ok := decode(s, 'A')
	v.Assert(ok, "spreadsheet names are upper case letters")
	v.Assert(n == i, "the spreadsheet name of a column follows the A, B, ..., Z, AA convention")
	v.Reach("sheet")
}

// H_C22_sheet_pairs: any two indices of a spreadsheet have different names.
func H_C22_sheet_pairs() {
	i, j := int(v.Uint16()), int(v.Uint16())
	v.Assume(i < j && j < v.Bound(8192, 16384))
	v.Assert(dsio.ColIndexToLetters(i) != dsio.ColIndexToLetters(j), "no two columns share a spreadsheet name")
	v.Reach("pairs")
}

// H_C22_abstract: the abstract name of every index below 2^16 (thorough: 2^19).
func H_C22_abstract() {
	k := v.Case(v.Bound(16, 128))
	i := k*4096 + int(v.Uint16()&4095)
	s := dataset.AbstractColumnName(i)
	n, ok := decode(s, 'a')
	v.Assert(ok, "abstract names are lower case letters")
	v.Assert(len(s) <= 5, "abstract names are short")
	// decoding gives the index, so no two indices share a name
	v.Assert(n == i, "the abstract name of a column tells its index")
	v.Reach("abstract")
}

// H_C22_abstract_pairs: any two indices have different abstract names.
func H_C22_abstract_pairs() {
	i, j := int(v.Uint16()), int(v.Uint16())
	v.Assume(i < j && j < v.Bound(8192, 32768))
	v.Assert(dataset.AbstractColumnName(i) != dataset.AbstractColumnName(j), "no two columns share an abstract name")
	v.Reach("pairs")
}
