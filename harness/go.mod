module vh

go 1.24

require github.com/google/licensecheck v0.0.0

replace github.com/google/licensecheck => /repo
