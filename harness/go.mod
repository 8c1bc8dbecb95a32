module verifharness

go 1.18

require (
	github.com/CrowdStrike/gql v0.0.0
	github.com/vektah/gqlparser/v2 v2.5.1
)

replace github.com/CrowdStrike/gql => /repo
