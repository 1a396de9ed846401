module mlsref

go 1.27

require golang.org/x/crypto v0.46.0

require golang.org/x/sys v0.39.0 // indirect
