property C14
option only safety nonil nodivision
#assume parseArray: every dimension is counted at least once, so the remainder by a dimension is defined
extern encoding/hex.DecodedLen
  ensures arg0 >= 0 ==> result >= 0
func internal/pqarray.parseArray
  requires len(del) > 0
func internal/pqarray.scanLinearArray
  requires len(del) > 0
func internal/pqarray.parseBytea (*internal/pqarray.BoolArray).scanBytes (*internal/pqarray.ByteaArray).scanBytes (*internal/pqarray.Float64Array).scanBytes
      (*internal/pqarray.Float32Array).scanBytes (*internal/pqarray.Int64Array).scanBytes (*internal/pqarray.Int32Array).scanBytes (*internal/pqarray.StringArray).scanBytes internal/pqarray.appendArrayQuotedBytes
  ensures true
