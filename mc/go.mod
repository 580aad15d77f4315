// Placeholder: run.sh generates the effective modfile from /repo's go.mod.
module bpassmc

go 1.25
