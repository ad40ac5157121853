module schedpt

go 1.23
