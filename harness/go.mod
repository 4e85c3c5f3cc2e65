module verif/harness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/gorilla/websocket v1.4.2
	github.com/pkg/errors v0.9.1
	github.com/sirupsen/logrus v1.8.1
	github.com/superisaac/jlib v0.0.0
	golang.org/x/net v0.8.0
	gopkg.in/yaml.v3 v3.0.0
)

require (
	github.com/google/uuid v1.3.0 // indirect
	github.com/hashicorp/golang-lru v0.5.4 // indirect
	github.com/mitchellh/mapstructure v1.4.3 // indirect
	golang.org/x/sys v0.6.0 // indirect
	golang.org/x/text v0.8.0 // indirect

)

replace github.com/superisaac/jlib => /repo
