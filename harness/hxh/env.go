//go:build verif

package hxh

// The environment of the process.
var environment = map[string]string{}

// ModelGetenv, and the ones below, take the place of the functions of package os in a symbolic run.
func ModelGetenv(k string) string { return environment[k] }

func ModelLookupEnv(k string) (string, bool) {
	v, ok := environment[k]
	return v, ok
}

func ModelSetenv(k, v string) error {
	environment[k] = v
	return nil
}

func ModelUnsetenv(k string) error {
	delete(environment, k)
	return nil
}
