module verif/harness

go 1.25

require github.com/ryanolee/go-chaff v0.0.0

replace github.com/ryanolee/go-chaff => /repo

require (
	github.com/go-faker/faker/v4 v4.6.1
	github.com/santhosh-tekuri/jsonschema/v6 v6.0.2
	github.com/thoas/go-funk v0.9.3
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/go-json-experiment/json v0.0.0-20251027170946-4849db3c2f7e // indirect
	github.com/goccy/go-yaml v1.18.0 // indirect
	github.com/kaptinlin/go-i18n v0.2.0 // indirect
	github.com/kaptinlin/jsonpointer v0.4.6 // indirect
	github.com/kaptinlin/jsonschema v0.6.1 // indirect
	github.com/kaptinlin/messageformat-go v0.4.6 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/santhosh-tekuri/jsonschema v1.2.4 // indirect
	github.com/stretchr/testify v1.11.1 // indirect
	golang.org/x/exp v0.0.0-20251125195548-87e1e737ad39 // indirect
	golang.org/x/text v0.31.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
