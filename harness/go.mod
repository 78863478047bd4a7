module verifharness

go 1.26

require (
	github.com/crunchypi/go-narb v0.0.0-20210728113441-c451128919c7
	pgregory.net/rapid v1.3.0
	trypo v0.0.0
)

replace trypo => /repo
