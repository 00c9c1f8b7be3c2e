module lemmas

go 1.25
