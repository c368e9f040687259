// Package e3 is the schedule explorer: it runs the code under test with the imports
// of os and sync replaced by a controlled scheduler and visits every interleaving.
package e3
