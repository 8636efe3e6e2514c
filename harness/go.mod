module vmon

go 1.22.5

require (
	github.com/weaviate/sroar v0.0.9
	vibe-lsm v0.0.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace vibe-lsm => /repo
