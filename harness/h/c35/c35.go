// Package c35 checks schemas inferred from rows held in memory.
package c35

import (
	"errors"
	"strconv"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/tabular"
	"verifh/u"
	"verifh/v"
)

// cell draws a value of any type a body holds and the JSON schema types it conforms to.
func cell() (x interface{}, types []string) {
	num := []string{"number", "integer"}
	switch v.Pick(16) {
	case 0:
		return nil, []string{"null"}
	case 1:
		return v.Bool(), []string{"boolean"}
	case 2:
		return u.Text(v.Pick(3)), []string{"string"}
	case 3:
		return v.Int64(), num
	case 4:
		return int(v.Int64()), num
	case 5:
		return float64(u.SmallInt()), num
	case 6:
		return 2.5, []string{"number"}
	case 7:
		return float32(0.5), []string{"number"}
	case 8:
		return int32(v.Uint32()), num
	case 9:
		return v.Byte(), num
	case 10:
		return uint64(v.Int64()), num
	case 11:
		return int8(v.Byte()), num
	case 12:
		return uint32(7), num
	case 13:
		return []interface{}{}, []string{"array"}
	case 14:
		return []interface{}{u.Text(1)}, []string{"array"}
	}
	return map[string]interface{}{"type": u.Text(1)}, []string{"object"}
}

// H_C35_rows: one or two rows of up to 3 (4) cells of every type; rows after the first do not matter.
func H_C35_rows() {
	n := v.Case(v.Bound(3, 4))
	row := make([]interface{}, n)
	types := make([][]string, n)
	for i := range row {
		row[i], types[i] = cell()
	}
	keep := append([]interface{}{}, row...)
	data := []interface{}{row}
	switch v.Pick(4) {
	case 1:
		data = append(data, []interface{}{})
	case 2:
		data = append(data, []interface{}{true, nil, 1, 2, 3})
	case 3:
		data = append(data, "no row")
	}
	sch, err := detect.TabularSchemaFromTabularData(data)
	v.Assert(err == nil && sch["type"] == "array", "rows have a schema")
	for i := range row {
		if t := types[i][0]; t != "array" && t != "object" {
			v.Assert(row[i] == keep[i], "the rows stay as they were")
		}
	}
	cols, problems, err := tabular.ColumnsFromJSONSchema(sch)
	v.Assert(err == nil && len(problems) == 0, "the schema describes a table, without problems")
	v.Assert(len(cols) == n, "every cell of the first row has a column")
	seen := map[string]bool{}
	for i, c := range cols {
		ok := false
		for _, t := range types[i] {
			ok = ok || c.Type != nil && c.Type.HasType(t)
		}
		v.Assert(ok, "a column has its cell's type")
		v.Assert(c.Title == "col_"+strconv.Itoa(i) && !seen[c.Title], "a column is titled by its position")
		seen[c.Title] = true
	}
	v.Assert(cols.ValidMachineTitles() == nil, "titles are valid and distinct")
	v.Reach("rows")
}

// H_C35_wide: rows of up to 30 (300) cells.
func H_C35_wide() {
	n := v.Bound(30, 300) - v.Pick(3)
	row := make([]interface{}, n)
	for i := range row {
		row[i] = i%3 == 0
	}
	at := v.Pick(n)
	row[at] = u.Text(1)
	sch, err := detect.TabularSchemaFromTabularData([]interface{}{row})
	v.Assert(err == nil, "rows have a schema")
	cols, problems, err := tabular.ColumnsFromJSONSchema(sch)
	v.Assert(err == nil && len(problems) == 0 && len(cols) == n && cols.ValidMachineTitles() == nil, "the schema describes a table")
	for i, c := range cols {
		want := "boolean"
		if i == at {
			want = "string"
		}
		v.Assert(len(*c.Type) == 1 && (*c.Type)[0] == want && c.Title == "col_"+strconv.Itoa(i), "columns are in order")
	}
	v.Reach("wide")
}

// H_C35_reject: everything that is no list of rows is a recognisable error.
func H_C35_reject() {
	var x interface{}
	switch v.Pick(12) {
	case 1:
		x = []interface{}{}
	case 2:
		x = []interface{}{u.Text(1)}
	case 3:
		x = []interface{}{nil, []interface{}{1}}
	case 4:
		x = []interface{}{map[string]interface{}{"a": u.Text(1)}}
	case 5:
		x = map[string]interface{}{}
	case 6:
		x = map[string]interface{}{"a": []interface{}{[]interface{}{v.Int64()}}}
	case 7:
		x = u.Text(2)
	case 8:
		x = v.Int64()
	case 9:
		x = v.Bool()
	case 10:
		x = []string{"a"}
	case 11:
		x = []interface{}{2.5, []interface{}{1}}
	}
	sch, err := detect.TabularSchemaFromTabularData(x)
	v.Assert(errors.Is(err, detect.ErrInvalidTabularData), "what is no table is a recognisable error")
	v.Assert(sch == nil, "an error comes without a schema")
	v.Reach("reject")
}

// H_C35_read: rows read from memory with the schema inferred for them are these rows.
func H_C35_read() {
	n, w := 1+v.Pick(2), v.Pick(3)
	data := []interface{}{}
	for i := 0; i < n; i++ {
		row := make([]interface{}, w)
		for j := range row {
			row[j] = u.Text(1)
		}
		data = append(data, row)
	}
	sch, err := detect.TabularSchemaFromTabularData(data)
	v.Assert(err == nil, "rows have a schema")
	r, err := dsio.NewIdentityReader(&dataset.Structure{Format: "json", Schema: sch}, data)
	v.Assert(err == nil, "rows can be read with their schema")
	i := 0
	for {
		e, err := r.ReadEntry()
		if err != nil {
			v.Assert(u.IsEOF(err), "reading ends")
			break
		}
		v.Assert(i < n && u.EqVal(e.Value, data[i]), "rows are read in order")
		i++
	}
	v.Assert(i == n, "every row is read")
	v.Reach("read")
}
