module verif/harness

go 1.22.0

require quamina.net/go/quamina/v2 v2.0.0

replace quamina.net/go/quamina/v2 => /repo
