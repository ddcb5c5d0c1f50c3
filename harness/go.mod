module verif.local/harness

go 1.24.0

require github.com/dpeckett/archivefs v0.0.0

replace github.com/dpeckett/archivefs => /repo
