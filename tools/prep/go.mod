module verifprep

go 1.24
