property C17
option only theory safety
extern path/filepath.ToSlash
  ensures same: result == uf("slash", "Str", arg0)
extern path.Clean path/filepath.Clean
  ensures same: result == uf("clean", "Str", arg0)
func ddl.normalizeFilename
  deterministic
  ensures no-dir: uf("slash", "Str", arg1) == "" ==> result == uf("slash", "Str", arg0)
  ensures here: uf("slash", "Str", arg0) != "" && uf("slash", "Str", arg1) != "" && uf("clean", "Str", uf("slash", "Str", arg1)) == "." ==>
      result == uf("clean", "Str", uf("slash", "Str", arg0))
  ensures inside: uf("slash", "Str", arg0) != "" && uf("slash", "Str", arg1) != "" && uf("clean", "Str", uf("slash", "Str", arg1)) != "." &&
      !hasSuffix(uf("clean", "Str", uf("slash", "Str", arg1)), "/") && hasPrefix(uf("clean", "Str", uf("slash", "Str", arg0)), uf("clean", "Str", uf("slash", "Str", arg1)) + "/") ==>
      uf("clean", "Str", uf("slash", "Str", arg0)) == uf("clean", "Str", uf("slash", "Str", arg1)) + "/" + result
  ensures outside: uf("slash", "Str", arg0) != "" && uf("slash", "Str", arg1) != "" && uf("clean", "Str", uf("slash", "Str", arg1)) != "." &&
      !hasSuffix(uf("clean", "Str", uf("slash", "Str", arg1)), "/") && !hasPrefix(uf("clean", "Str", uf("slash", "Str", arg0)), uf("clean", "Str", uf("slash", "Str", arg1)) + "/") ==>
      result == uf("clean", "Str", uf("slash", "Str", arg0))
