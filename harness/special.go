package main

// special handles the helper processes some properties start; it reports whether mode was one.
func special(mode string, args []string) bool {
	if fn, ok := helpers[mode]; ok {
		fn(args)
		return true
	}
	return false
}

var helpers = map[string]func(args []string){}
