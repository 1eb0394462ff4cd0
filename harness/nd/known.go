package nd

// KnownKeys lists the recorded known findings (native replay).
var KnownKeys = map[string]bool{}

// Known tells whether a finding of this name is recorded as known.
func Known(key string) bool { return KnownKeys[key] }
