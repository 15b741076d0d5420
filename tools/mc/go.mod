module mc

go 1.22
