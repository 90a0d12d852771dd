package porcupine

// Annotation stands in for the type of the visualization file, which is left
// out of this copy.
type Annotation struct{}
