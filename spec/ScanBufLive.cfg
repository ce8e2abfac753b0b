SPECIFICATION Spec
PROPERTY Ends
