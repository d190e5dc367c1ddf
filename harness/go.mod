module verifharness

go 1.23.1

require github.com/LazarenkoA/1c-language-parser v0.0.0

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/LazarenkoA/1c-language-parser => /repo
