property C16
option only safety
func ddl.GenerateName
  deterministic
  ensures length: len(result) <= 63
  ensures primary-key: arg0 == PRIMARY_KEY ==> hasSuffix(result, "_pkey")
  ensures foreign-key: arg0 == FOREIGN_KEY ==> hasSuffix(result, "_fkey")
  ensures unique: arg0 == UNIQUE ==> hasSuffix(result, "_key")
  ensures index: arg0 == INDEX ==> hasSuffix(result, "_idx")
  ensures check: arg0 == CHECK ==> hasSuffix(result, "_check")
  ensures exclude: arg0 == EXCLUDE ==> hasSuffix(result, "_excl")
