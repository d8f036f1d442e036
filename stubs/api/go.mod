module google.golang.org/api

go 1.25.0

require golang.org/x/oauth2 v0.36.0
