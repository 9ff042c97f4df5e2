module verifsim

go 1.26

require trypo v0.0.0

replace trypo => /repo

require github.com/crunchypi/go-narb v0.0.0-20210728113441-c451128919c7
